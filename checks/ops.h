// The operations on private data, as a user's translation unit would contain them:
// each one a function from an input record to an output record.
#ifndef CHECKS_OPS_H
#define CHECKS_OPS_H
#include "common.h"
#include <Vc/algorithm>
#include <Vc/IO>
#include <Vc/simdize>
#include <limits>
#include <sstream>
#include <vector>

enum { OutBytes = 1024, InMax = 64 };

template <class V> struct In {
    typedef typename V::EntryType T;
    typedef typename V::MaskType M;
    enum { S = V::Size };
    T x[3][S];
    bool b[2][S];
    int idx[S];      // distinct, < InMax
    T table[InMax];
    int k;           // a small number

    NOINLINE void prepare(uint64_t seed)
    {
        sim::Rng r(seed);
        const int kind = int(seed % 6);
        const double mag = kind == 5 ? magnitude(r) : 0;   // all lanes take the same path
        const bool splat = kind == 5 && r.chance(30);
        for (int j = 0; j < 3; ++j) {
            for (int i = 0; i < S; ++i) {
                x[j][i] = splat && i ? x[j][0] : kind == 5 ? scaled(r, j, mag) : value(r, kind % 4, j);
            }
        }
        for (int j = 0; j < 2; ++j) {
            for (int i = 0; i < S; ++i) {
                b[j][i] = r.chance(50);
            }
        }
        for (int i = 0; i < InMax; ++i) {
            table[i] = T(i * 3 + 1 + long(seed % 5));
        }
        bool used[InMax] = {};
        for (int i = 0; i < S; ++i) {
            int c;
            do {
                c = int(r.below(InMax));
            } while (used[c]);
            used[c] = true;
            idx[i] = c;
        }
        k = int(r.below(5));
    }
    template <class U> static U special(sim::Rng &r, std::true_type)
    {
        typedef std::numeric_limits<U> L;
        const U s[] = {U(0), -U(0), L::infinity(), -L::infinity(), L::quiet_NaN(), L::min(), L::denorm_min(),
                       L::max(), -L::max(), U(1), U(-1), U(0.5), U(3.14159265358979), U(-1e10), U(1e-20), U(700)};
        return s[r.below(16)];
    }
    template <class U> static U special(sim::Rng &r, std::false_type)
    {
        typedef std::numeric_limits<U> L;
        const U s[] = {U(0), U(1), U(-1), L::max(), L::min(), U(L::max() / 2), U(7), U(100)};
        return s[r.below(8)];
    }
    static double magnitude(sim::Rng &r)
    {
        static const double m[] = {1e-30, 1e-9, 1e-3, 0.1, 0.7, 1, 2, 5, 20, 80, 300, 1000, 5000, 1e5, 1e8, 1e12, 1e30};
        return m[r.below(17)];
    }
    static T scaled(sim::Rng &r, int j, double mag)
    {
        if (!std::is_floating_point<T>::value) return value(r, j == 2 ? 3 : 1, j);
        const double d = mag * (1 + double(r.below(1000000)) / 1000000.);
        return T(r.chance(20) ? -d : d);
    }
    static T value(sim::Rng &r, int kind, int j)
    {
        const bool fp = std::is_floating_point<T>::value;
        T v;
        switch (kind) {
        case 0: v = T(long(r.below(100)) - (std::is_signed<T>::value ? 50 : 0)); break;
        case 1: v = fp ? T(double(r.below(2000000)) / 1000 - 1000) : T(r.next()); break;
        case 2: v = r.chance(60) ? special<T>(r, std::is_floating_point<T>()) : T(r.below(20)); break;
        default: v = fp ? T(double(r.below(1000000)) / 1000000.) : T(r.below(16)); break;
        }
        // third operand: usable as divisor and shift count
        if (j == 2 && !fp) {
            v = T(1 + r.below(7));
        }
        return v;
    }
    V v(int j) const { return V(&x[j][0], Vc::Unaligned); }
    M m(int j) const { return maskFrom<M>(b[j]); }
};

struct Out {
    int n;
    int overflow;
    long steps;      // it took
    int control;     // control state the operation changed
    alignas(64) unsigned char bytes[OutBytes];
    void clear()
    {
        n = 0;
        overflow = 0;
        control = 0;
        memset(bytes, 0, sizeof(bytes));
    }
    void raw(const void *p, size_t c)
    {
        if (size_t(n) + c > sizeof(bytes)) {
            overflow = 1;
            return;
        }
        memcpy(bytes + n, p, c);
        n += int(c);
    }
};
// lane-wise, so that padding does not count
template <class X> typename std::enable_if<std::is_arithmetic<X>::value>::type put(Out &o, const X &x)
{
    o.raw(&x, sizeof(x));
}
template <class X> typename std::enable_if<Vc::Traits::is_simd_vector<X>::value>::type put(Out &o, const X &x)
{
    typename X::EntryType t[X::Size];
    x.store(&t[0], Vc::Unaligned);
    o.raw(t, sizeof(t));
}
template <class X> typename std::enable_if<Vc::Traits::is_simd_mask<X>::value>::type put(Out &o, const X &x)
{
    unsigned char t[X::Size];
    for (size_t i = 0; i < X::Size; ++i) {
        t[i] = bool(x[i]);
    }
    o.raw(t, sizeof(t));
}

template <class V> struct OpDef {
    const char *name;
    void (*fn)(const In<V> &, Out &);
    int io;   // uses streams or the heap
};
template <class V> using OpList = std::vector<OpDef<V>>;

#define OPDEF(NAME, IO, ...)                                                                            \
    {                                                                                                   \
        struct L {                                                                                      \
            static NOINLINE void f(const In<V> &in, Out &o)                                             \
            {                                                                                           \
                typedef typename V::EntryType T;                                                        \
                typedef typename V::MaskType M;                                                         \
                typedef typename V::IndexType I;                                                        \
                enum { S = V::Size };                                                                   \
                const V a = in.v(0), b = in.v(1), c = in.v(2);                                          \
                const M m = in.m(0), n = in.m(1);                                                       \
                (void)a, (void)b, (void)c, (void)m, (void)n;                                            \
                (void)sizeof(T), (void)sizeof(I), (void)sizeof(S);                                      \
                __VA_ARGS__                                                                             \
            }                                                                                           \
        };                                                                                              \
        t.push_back({NAME, &L::f, IO});                                                                 \
    }
#define OP(NAME, ...) OPDEF(NAME, 0, __VA_ARGS__)
#define IOOP(NAME, ...) OPDEF(NAME, 1, __VA_ARGS__)

template <class V, class I> inline I indexesOf(const In<V> &in)
{
    I iv;
    for (size_t i = 0; i < I::Size; ++i) {
        iv[i] = typename I::EntryType(i < size_t(V::Size) ? in.idx[i] : 0);
    }
    return iv;
}

// four vectors of four
template <class V> NOINLINE void opTranspose(Out &o, const V &a, const V &b, const V &c, std::true_type)
{
    V p, q, r, s;
    Vc::tie(p, q, r, s) = Vc::transpose(a, b, c, V(a + b));
    put(o, p), put(o, q), put(o, r), put(o, s);
    Vc::tie(p, q, r, s) = Vc::transpose(p, q, r, s);
    put(o, p), put(o, q), put(o, r), put(o, s);
}
template <class V> void opTranspose(Out &o, const V &a, const V &, const V &, std::false_type) { put(o, a); }
template <class V> struct HasTranspose { enum { value = 0 }; };
#ifdef Vc_IMPL_SSE
template <> struct HasTranspose<Vc::SSE::Vector<float>> { enum { value = 1 }; };
#endif
template <> struct HasTranspose<Vc::SimdArray<float, 4>> { enum { value = 1 }; };

// arithmetic, comparison, masks, reductions: every type
template <class V> void opsCommon(OpList<V> &t)
{
    OP("a+b", put(o, V(a + b));)
    OP("a-b", put(o, V(a - b));)
    OP("a*b", put(o, V(a * b));)
    OP("a/c", put(o, V(a / c));)
    OP("-a", put(o, V(-a));)
    OP("compare", put(o, M(a < b)); put(o, M(a <= b)); put(o, M(a == b)); put(o, M(a != b)); put(o, M(a > b)); put(o, M(a >= b));)
    OP("a+=b masked", V x = a; x(m) += b; put(o, x); Vc::where(n) | x -= c; put(o, x); x(n) *= b; put(o, x);)
    OP("masked assign", V x = a; x(m) = b; put(o, x); x.setZero(n); put(o, x); where(m) | x = c; put(o, x);)
    OP("min/max", put(o, V(Vc::min(a, b))); put(o, V(Vc::max(a, b)));)
    OP("sum", put(o, a.sum()); put(o, a.sum(m));)
    OP("product", put(o, c.product());)
    OP("min()/max()", put(o, a.min()); put(o, a.max());)
    OP("partialSum", put(o, V(c.partialSum()));)
    OP("sorted", put(o, V(c.sorted())); put(o, V((c + b).sorted()));)
    OP("reversed", put(o, V(a.reversed()));)
    OP("shifted", put(o, V(a.shifted(in.k))); put(o, V(a.shifted(-in.k)));)
    OP("shifted in", put(o, V(a.shifted(in.k % (S + 1), b))); put(o, V(a.shifted(-(in.k % (S + 1)), b)));)
    OP("rotated", put(o, V(a.rotated(in.k))); put(o, V(a.rotated(-in.k)));)
    OP("interleaveLow/High", put(o, V(a.interleaveLow(b))); put(o, V(a.interleaveHigh(b)));)
    OP("iif", put(o, V(Vc::iif(m, a, b)));)
    OP("constants", put(o, V(V::Zero())); put(o, V(V::One())); put(o, V(V::IndexesFromZero())); put(o, V(T(in.k)));)
    OP("generate", const int k = in.k; put(o, V(V::generate([k](size_t i) { return T(int(i) * k + 1); })));)
    OP("apply", put(o, V(a.apply([](T x) { return T(x + T(1)); }))); put(o, V(a.apply([](T x) { return T(x * T(2)); }, m)));)
    OP("subscript", V x = a; for (size_t i = 0; i < S; ++i) x[i] = b[S - 1 - i]; put(o, x); put(o, T(x[size_t(in.k) % S]));)
    OP("load/store", alignas(64) T mem[S * 2]; a.store(mem, Vc::Aligned); b.store(mem + S, Vc::Unaligned);
       put(o, V(mem + 1, Vc::Unaligned)); V x; x.load(mem, Vc::Aligned); put(o, x);)
    OP("masked store", alignas(64) T mem[S] = {}; a.store(mem, m, Vc::Unaligned); b.store(mem, n, Vc::Aligned); o.raw(mem, sizeof(mem));)
    OP("gather", const I iv = indexesOf<V, I>(in); V x(in.table, iv); put(o, x); x.gather(in.table, iv, m); put(o, x);
       V y = b; y.gather(in.table, iv, n); put(o, y);)
    OP("scatter", T mem[InMax] = {}; const I iv = indexesOf<V, I>(in); a.scatter(mem, iv); b.scatter(mem, iv, m); o.raw(mem, sizeof(mem));)
    OP("Vc::array[idx]", Vc::array<T, InMax> arr; for (int i = 0; i < InMax; ++i) arr[size_t(i)] = in.table[i];
       const I iv = indexesOf<V, I>(in); V x = arr[iv]; put(o, x); arr[iv] = a; o.raw(&arr[0], sizeof(T) * InMax);)
    OP("mask ops", put(o, M(m && n)); put(o, M(m || n)); put(o, M(!m)); put(o, M(m & n)); put(o, M(m | n)); put(o, M(m ^ n)); put(o, m == n); put(o, m != n);)
    OP("mask queries", put(o, m.isFull()); put(o, m.isEmpty()); put(o, m.isMix()); put(o, m.count()); put(o, m.toInt());
       if (!m.isEmpty()) put(o, m.firstOne()); put(o, Vc::all_of(m)); put(o, Vc::any_of(n)); put(o, Vc::none_of(m)); put(o, Vc::some_of(n));)
    OP("mask loop", int s = 0; for (size_t i : Vc::where(m)) s = s * 5 + int(i); put(o, s);)
    OP("mask bool array", bool mem[S + 8] = {}; m.store(mem); M x(mem); put(o, x); o.raw(mem, S);)
    OP("mask subscript", M x = m; x[size_t(in.k) % S] = !bool(x[size_t(in.k) % S]); put(o, x);)
    OP("mask generate", const int k = in.k; put(o, M(M::generate([k](size_t i) { return (int(i) + k) % 3 == 0; })));)
    OP("masked ++/--", V x = a; x(m)++; put(o, x); ++x(n); put(o, x); V y = x(m)--; put(o, x); put(o, y); --x(n); put(o, x); Vc::where(m) | x += b; put(o, x);)
    OP("element ++/+=", V x = a; const size_t i = size_t(in.k) % S, j = S - 1; x[i]++; ++x[j]; put(o, x); x[i] += x[j]; put(o, x); x[j] -= b[i]; x[i] *= T(3);
       put(o, T(x[i]--)); --x[j]; put(o, x); { using std::swap; swap(x[i], x[j]); } put(o, x);)
    OP("iterate", T s = T(0); int q = 0; for (T y : a) { s = T(s * T(3) + y); ++q; } put(o, s); put(o, q); V x = a; for (auto i = Vc::begin(x); i != Vc::end(x); ++i) *i = T(T(*i) + T(1)); put(o, x);
       int z = 0; for (bool y : m) z = z * 2 + y; put(o, z);)
    OP("setZero/Inverted", V x = a; x.setZeroInverted(m); put(o, x); x = b; x.setZero(n); put(o, x); x.setZero(); put(o, x);)
    OP("!a", put(o, M(!a)); put(o, M(!c));)
    OP("mask compound", M x = m; x &= n; put(o, x); x |= m; put(o, x); x ^= n; put(o, x); x = M(true); put(o, x); x = M(false); put(o, x); put(o, M(Vc::One));)
    OP("mask aligned bool array", alignas(64) bool mem[S + 8] = {}; m.store(mem, Vc::Aligned); M x; x.load(mem, Vc::Aligned); put(o, x); n.store(mem, Vc::Unaligned);
       M y(mem, Vc::Unaligned); put(o, y); o.raw(mem, S);)
    OP("masked reductions", put(o, a.sum(m)); put(o, c.product(m)); if (!m.isEmpty()) { put(o, a.min(m)); put(o, a.max(m)); })
    OP("assign compound", V x = a; x += b; x -= c; put(o, x); x *= c; put(o, x); x /= c; put(o, x); x = x + T(in.k); put(o, x); x = T(2) * x; put(o, x);)
    OP("generating ctor", const int k = in.k; put(o, V([k](int i) { return T(i * k); }));)
    OP("simdize", typedef std::tuple<T, T> P; typedef Vc::simdize<P, S> W; W w; std::get<0>(w) = a; std::get<1>(w) = b; const size_t i = size_t(in.k) % S;
       const P e = Vc::extract(w, i); put(o, T(std::get<0>(e))); put(o, T(std::get<1>(e))); Vc::assign(w, S - 1 - i, e); put(o, V(std::get<0>(w))); put(o, V(std::get<1>(w)));)
    OP("transpose", typedef typename std::conditional<std::is_same<T, float>::value && !HasTranspose<V>::value, Vc::SimdArray<float, 4>, V>::type W;
       W x, y, z; for (size_t i = 0; i < W::Size; ++i) { x[i] = a[i % S]; y[i] = b[(i + 1) % S]; z[i] = c[(i + i / S) % S]; }
       opTranspose<W>(o, x, y, z, std::integral_constant<bool, HasTranspose<W>::value>());)
    OP("fused chain", V x = a; for (int i = 0; i < 4; ++i) { x = x * c + b; x(x < a) = x + c; } put(o, x);)
    IOOP("operator<<", std::ostringstream s; s << a << m << b; const std::string str = s.str(); o.raw(str.data(), str.size() < 500 ? str.size() : 500);)
}
// subscripting with a permutation exists for a few types only
template <class V> static inline V permuted(const V &v, int, long) { return v.reversed(); }
#ifdef Vc_IMPL_AVX
static inline Vc::SSE::float_v permuted(const Vc::SSE::float_v &v, int k, int) { return v[Vc::SSE::int_v([k](int i) { return (i * 3 + k) & 3; })]; }
template <class T> static inline auto permuted(const Vc::Vector<T, Vc::VectorAbi::Avx> &v, int, int) -> decltype(v[Vc::Permutation::ReversedTag()])
{
    return v[Vc::Permutation::ReversedTag()];
}
#endif
// native vectors only
template <class V> void opsNative(OpList<V> &t)
{
    OP("v[permutation]", put(o, V(permuted(a, int(in.k), 0)));)
    OP("call", T acc[S]; int q = 0; a.call([&](T x) { acc[q++] = x; }); o.raw(acc, sizeof(acc));)
    OP("++/--", V x = a; ++x; put(o, x); x++; put(o, x); --x; put(o, x); x--; put(o, x);)
    OP("product/min/max masked", put(o, c.product(m)); if (!m.isEmpty()) { put(o, a.min(m)); put(o, a.max(m)); })
    OP("Memory<V,N>", Vc::Memory<V, 23> mem; for (size_t i = 0; i < mem.vectorsCount(); ++i) mem.vector(i) = a + V(T(i));
       for (size_t i = 0; i < 23; ++i) put(o, T(mem[i])); mem += T(in.k); mem *= T(2); for (size_t i = 0; i < 23; ++i) put(o, T(mem[i]));
       put(o, V(mem.vector(0, in.k)));)
    OP("Memory2D", Vc::Memory<V, 3, 7> mem; mem.setZero(); for (size_t i = 0; i < 3; ++i) mem[i] = T(i + 1);
       mem[1].vector(0) = a; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 7; ++j) put(o, T(mem[i][j]));)
    OP("streaming load/store", alignas(64) T mem[S * 2]; for (int i = 0; i < 2 * S; ++i) mem[i] = in.table[i % InMax];
       a.store(mem, Vc::Streaming); b.store(mem + S, m, Vc::Streaming); put(o, V(mem, Vc::Streaming)); V x; x.load(mem + S, Vc::Streaming | Vc::PrefetchDefault);
       put(o, x); x.store(mem, Vc::Aligned | Vc::PrefetchDefault); x.store(mem + S, n, Vc::Aligned | Vc::PrefetchDefault); o.raw(mem, sizeof(mem));)
    OP("gather from structs", struct P { T q; T p; int z; }; Vc::array<P, InMax> mem; for (size_t i = 0; i < InMax; ++i) { mem[i].q = in.table[i]; mem[i].p = T(in.table[i] + T(1)); mem[i].z = 0; }
       const I iv = indexesOf<V, I>(in); V x = mem[iv][&P::p]; put(o, x); V y = b; Vc::where(m) | y = mem[iv][&P::q]; put(o, y);
       mem[iv][&P::q] = a; Vc::where(n) | mem[iv][&P::p] = b; for (size_t i = 0; i < InMax; ++i) { put(o, mem[i].q); if (i % 4 == 0) put(o, mem[i].p); })
    OP("vectorised iterator", T mem[3 * S]; for (int i = 0; i < 3 * S; ++i) mem[i] = in.table[i % InMax];
       Vc::simdize<T *, S> it(mem + in.k % S); const typename Vc::simdize<T *, S>::value_type x = *it; *it = a; ++it; *it = x; for (int j = 0; j < 3 * S; ++j) put(o, mem[j]);)
    OP("deinterleave", alignas(64) T mem[2 * S]; for (int i = 0; i < 2 * S; ++i) mem[i] = in.table[i % InMax];
       V x, y; Vc::deinterleave(&x, &y, mem, Vc::Aligned); put(o, x); put(o, y);)
    OP("interleaved", struct P { T p[3]; }; P mem[InMax]; for (int i = 0; i < InMax; ++i) for (int j = 0; j < 3; ++j) mem[i].p[j] = T(in.table[i] + T(j));
       Vc::InterleavedMemoryWrapper<P, V> w(mem); const I iv = indexesOf<V, I>(in); V x, y, z; Vc::tie(x, y, z) = w[iv];
       put(o, x); put(o, y); put(o, z); w[iv] = Vc::tie(z, x, y);
       Vc::tie(x, y, z) = w[0]; put(o, x); put(o, y); put(o, z);)
    OP("interleaved 2", struct P { T p[2]; }; P mem[InMax]; for (int i = 0; i < InMax; ++i) for (int j = 0; j < 2; ++j) mem[i].p[j] = T(in.table[i] + T(j));
       Vc::InterleavedMemoryWrapper<P, V> w(mem); const I iv = indexesOf<V, I>(in); V x, y; Vc::tie(x, y) = w[iv];
       put(o, x); put(o, y); w[iv] = Vc::tie(y, x); Vc::tie(x, y) = w[0]; put(o, x); put(o, y);)
    OP("simd_for_each", T mem[3 * S + 3]; for (int i = 0; i < 3 * S + 3; ++i) mem[i] = in.table[i % InMax];
       const T add = in.table[in.k]; Vc::simd_for_each(mem + 1, mem + 3 * S + 2, [add](auto &v) { v += add; }); o.raw(mem, sizeof(mem));)
    OP("callWithValuesSorted", T acc[S] = {}; int q = 0; V x = c; x.callWithValuesSorted([&](T y) { acc[q++] = y; }); o.raw(acc, sizeof(T) * size_t(q)); put(o, q);)
    OP("Memory<V>", Vc::Memory<V, 3 * S + 1> mem; mem.setZero(); mem.vector(1) = a; mem.firstVector() = b; mem.lastVector()[0] = in.table[3]; mem.vector(0, 1) += a;
       for (size_t i = 0; i < mem.entriesCount(); ++i) put(o, T(mem[i]));)
    OP("casts of several", typedef Vc::SimdArray<T, 2 * S> D; const D d = Vc::simd_cast<D>(a, b); put(o, d); put(o, V(Vc::simd_cast<V, 1>(d))); put(o, V(Vc::simd_cast<V>(d)));
       typedef Vc::SimdArray<T, S + 1> D1; const D1 e = Vc::simd_cast<D1>(d); put(o, e); put(o, D1(e.rotated(in.k))); put(o, D1(e.shifted(in.k))); put(o, D1(e.reversed()));)
    OP("copy through heap types", struct alignas(V) Q { V p, q; }; Q u[2] = {{a, b}, {b, c}}; Q w[2]; w[0] = u[1]; w[1] = u[0]; std::swap(w[0].p, w[1].q); put(o, w[0].p); put(o, w[1].q);)
    IOOP("makeContainer", const std::vector<V, Vc::Allocator<V>> v = Vc::makeContainer<std::vector<V, Vc::Allocator<V>>>({in.table[0], in.table[1], in.table[2], in.table[3], in.table[4]});
       for (const V &x : v) put(o, x); put(o, int(v.size()));)
    OP("mask shift", put(o, M(m.shifted(in.k % S))); put(o, M(m.shifted(-(in.k % S))));)
    IOOP("operator<< Memory", Vc::Memory<V, 5> mem; mem = T(in.k); std::ostringstream s; s << mem; const std::string str = s.str(); o.raw(str.data(), str.size() < 500 ? str.size() : 500);)
}
template <class V> void opsFloat(OpList<V> &t)
{
    OP("sqrt", put(o, V(Vc::sqrt(a)));)
    OP("rsqrt", put(o, V(Vc::rsqrt(a)));)
    OP("reciprocal", put(o, V(Vc::reciprocal(a)));)
    OP("abs", put(o, V(Vc::abs(a)));)
    OP("round", put(o, V(Vc::round(a))); put(o, V(Vc::floor(a))); put(o, V(Vc::ceil(a))); put(o, V(Vc::trunc(a)));)
    OP("exp", put(o, V(Vc::exp(a)));)
    OP("log", put(o, V(Vc::log(a)));)
    OP("log2", put(o, V(Vc::log2(a)));)
    OP("log10", put(o, V(Vc::log10(a)));)
    OP("sin", put(o, V(Vc::sin(a)));)
    OP("cos", put(o, V(Vc::cos(a)));)
    OP("sincos", V s, k; Vc::sincos(a, &s, &k); put(o, s); put(o, k);)
    OP("asin", put(o, V(Vc::asin(a)));)
    OP("atan", put(o, V(Vc::atan(a)));)
    OP("atan2", put(o, V(Vc::atan2(a, b)));)
    OP("copysign", put(o, V(Vc::copysign(a, b)));)
    OP("fma", put(o, V(Vc::fma(a, b, c)));)
    OP("classify", put(o, M(Vc::isfinite(a))); put(o, M(Vc::isinf(a))); put(o, M(Vc::isnan(a))); put(o, M(Vc::isnegative(a)));)
    OP("setQnan", V x = a; x.setQnan(m); put(o, x);)
    OP("exponent", put(o, V(Vc::exponent(Vc::max(Vc::abs(a), V(T(1))))));)
    OP("frexp", typedef Vc::SimdArray<int, S> E; E e(0); put(o, V(Vc::frexp(a, &e))); put(o, e);)
    OP("ldexp", typedef Vc::SimdArray<int, S> E; put(o, V(Vc::ldexp(a, E(in.k - 2))));)
}
template <class V> void opsInt(OpList<V> &t)
{
    OP("a%c", put(o, V(a % c));)
    OP("bit ops", put(o, V(a & b)); put(o, V(a | b)); put(o, V(a ^ b)); put(o, V(~a));)
    OP("shift by int", put(o, V(a << in.k)); put(o, V(a >> in.k));)
    OP("masked int ops", V x = a; x(m) &= b; x(n) |= c; x(m) ^= b; x(m) <<= 1; x(n) >>= 1; put(o, x);)
}
template <class V> void opsFloatNative(OpList<V> &t)
{
    OP("isNegative (member)", put(o, M(a.isNegative()));)
}
template <class V> void opsIntNative(OpList<V> &t)
{
    OP("shift by vector", put(o, V(a << c)); put(o, V(a >> c));)
}
template <class V> void opsSigned(OpList<V> &t)
{
    OP("abs", put(o, V(Vc::abs(c - b)));)
    OP("isnegative", put(o, M(Vc::isnegative(a)));)
}
template <class V> struct CastTo {
    template <class U> static void one(OpList<V> &t, const char *name)
    {
        OPDEF(name, 0, typedef Vc::SimdArray<U, S> W; const V q = Vc::min(Vc::max(a, V(T(0))), V(T(1000)));
              const W w = Vc::simd_cast<W>(q); put(o, w); put(o, V(Vc::simd_cast<V>(w)));
              typedef typename W::MaskType WM; put(o, WM(Vc::simd_cast<WM>(m)));)
    }
};
template <class V> void opsCast(OpList<V> &t)
{
    CastTo<V>::template one<float>(t, "cast float");
    CastTo<V>::template one<double>(t, "cast double");
    CastTo<V>::template one<int>(t, "cast int");
    CastTo<V>::template one<unsigned>(t, "cast uint");
    CastTo<V>::template one<short>(t, "cast short");
    CastTo<V>::template one<unsigned short>(t, "cast ushort");
}
template <class V> struct Cat {
    typedef typename V::EntryType T;
    enum { Fp = std::is_floating_point<T>::value, Signed = std::is_signed<T>::value && !Fp };
};
template <class V> void addFloat(OpList<V> &t, std::true_type) { opsFloat<V>(t); }
template <class V> void addFloat(OpList<V> &t, std::false_type) { opsInt<V>(t); }
template <class V> void addIntNative(OpList<V> &t, std::true_type) { opsIntNative<V>(t); }
template <class V> void addIntNative(OpList<V> &, std::false_type) {}
template <class V> void addFloatNative(OpList<V> &t, std::true_type) { opsFloatNative<V>(t); }
template <class V> void addFloatNative(OpList<V> &, std::false_type) {}
template <class V> void addSigned(OpList<V> &t, std::true_type) { opsSigned<V>(t); }
template <class V> void addSigned(OpList<V> &, std::false_type) {}
template <class V> void addNative(OpList<V> &t, std::true_type)
{
    opsNative<V>(t);
    opsCast<V>(t);
}
template <class V> void addNative(OpList<V> &, std::false_type) {}
template <class V, bool Native> OpList<V> allOps()
{
    OpList<V> t;
    opsCommon<V>(t);
    addFloat<V>(t, std::integral_constant<bool, Cat<V>::Fp>());
    addSigned<V>(t, std::integral_constant<bool, Cat<V>::Signed>());
    addIntNative<V>(t, std::integral_constant<bool, Native && !Cat<V>::Fp>());
    addFloatNative<V>(t, std::integral_constant<bool, Native && Cat<V>::Fp>());
    addNative<V>(t, std::integral_constant<bool, Native>());
    return t;
}
#endif
