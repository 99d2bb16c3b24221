// Shared by the workloads: the vector types under test and small helpers.
#ifndef CHECKS_COMMON_H
#define CHECKS_COMMON_H
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <Vc/Vc>
#include "../sim/sim.h"
#include <cstdint>
#include <cstdio>
#include <string>
#include <type_traits>
#include <utility>

#define NOINLINE __attribute__((noinline))

template <class T> struct TypeName;
#define TN(T, s) template <> struct TypeName<T> { static const char *get() { return s; } }
TN(float, "float");
TN(double, "double");
TN(int, "int");
TN(unsigned, "uint");
TN(short, "short");
TN(unsigned short, "ushort");
#undef TN

template <class V> struct VName {
    static std::string get() { return std::string(TypeName<typename V::EntryType>::get()) + "_v"; }
};
template <class T, size_t N, class V, size_t W> struct VName<Vc::SimdArray<T, N, V, W>> {
    static std::string get()
    {
        return std::string("SimdArray<") + TypeName<T>::get() + "," + std::to_string(N) + ">";
    }
};
#ifdef Vc_IMPL_AVX
template <class T> struct VName<Vc::SSE::Vector<T>> {
    static std::string get() { return std::string("SSE::") + TypeName<T>::get() + "_v"; }
};
#endif
#ifndef Vc_IMPL_Scalar
template <class T> struct VName<Vc::Scalar::Vector<T>> {
    static std::string get() { return std::string("Scalar::") + TypeName<T>::get() + "_v"; }
};
#endif

// ------------------------------------------------------------------ patterns of lanes
// which of n lanes are selected: every density, and the shapes code is likely to treat specially
inline void shapeMask(sim::Rng &r, bool *b, int n)
{
    const unsigned shape = unsigned(r.below(13));
    const int k = int(r.below(uint64_t(n))), l = int(r.below(uint64_t(n)));
    static const int density[] = {0, 20, 50, 85, 100};
    for (int i = 0; i < n; ++i) {
        switch (shape) {
        case 5: b[i] = i < k; break;                       // prefix
        case 6: b[i] = i >= k; break;                      // suffix
        case 7: b[i] = i >= (k < l ? k : l) && i <= (k < l ? l : k); break;   // block
        case 8: b[i] = i == k; break;                      // one
        case 9: b[i] = i != k; break;                      // all but one
        case 10: b[i] = i % 2 == k % 2; break;
        case 11: b[i] = (i < n / 2) == (k % 2 == 0); break;   // a half
        case 12: b[i] = i < n / 2 ? k & 1 : l % 3 ? r.chance(50) : l & 1; break;   // half full or empty
        default: b[i] = r.chance(unsigned(density[shape])); break;
        }
    }
}
// n numbers of [0, count): unrelated, or in an order code is likely to treat specially
inline void shapeIndexes(sim::Rng &r, int *idx, int n, int count)
{
    unsigned shape = unsigned(r.below(12));
    const bool ends = r.chance(33);
    auto any = [&] { return ends && r.chance(50) ? (r.chance(50) ? 0 : count - 1) : int(r.below(uint64_t(count))); };
    if (shape < 7 && count < n) shape = 11;
    const int room = count - n + 1;
    const int base = shape < 7 ? (r.chance(30) ? (r.chance(50) ? 0 : room - 1) : int(r.below(uint64_t(room)))) : any();
    const int stride = shape == 2 && count > 2 * n ? 2 + int(r.below(uint64_t((count - 1) / n - 1))) : 1;
    const int b2 = shape == 2 ? int(r.below(uint64_t(count - stride * (n - 1)))) : base;
    for (int i = 0; i < n; ++i) {
        switch (shape) {
        case 0: case 3: case 4: case 5: idx[i] = base + i; break;   // consecutive (and what is made of it below)
        case 1: case 6: idx[i] = base + n - 1 - i; break;    // backwards
        case 2: idx[i] = b2 + stride * i; break;
        case 7: idx[i] = base; break;                        // all the same
        case 8: idx[i] = i % 2 ? idx[i - 1] : any(); break;  // pairs
        case 9: idx[i] = n > 1 && i >= n / 2 && idx[i - n / 2] + 1 < count ? idx[i - n / 2] + 1 : any(); break;
        default: idx[i] = any(); break;
        }
    }
    auto swap = [&](int i, int j) {
        const int t = idx[i];
        idx[i] = idx[j];
        idx[j] = t;
    };
    if (shape == 3) {                                       // consecutive, permuted; the ends stay or not
        const int keep = int(r.below(2));
        for (int i = n - 1 - keep; i > keep; --i) swap(i, keep + int(r.below(uint64_t(i + 1 - keep))));
    }
    if (shape == 4 && n > 1) swap(int(r.below(uint64_t(n))), int(r.below(uint64_t(n))));   // two exchanged
    if (shape == 5 || shape == 6) idx[r.below(uint64_t(n))] = any();                       // one is different
}

// bitwise equality (NaNs, signed zeros)
template <class T> inline bool same(const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }

template <class V> inline V loadFrom(const typename V::EntryType *p) { return V(p, Vc::Unaligned); }

// mask from bools without relying on more than mask element access
template <class M> inline M maskFrom(const bool *b)
{
    M m(false);
    for (size_t i = 0; i < M::size(); ++i) {
        m[i] = b[i];
    }
    return m;
}
#endif
