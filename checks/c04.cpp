// C04  simd_for_each and simd_for_each_n: threads process sub-ranges of one window that
// lies against inaccessible pages, others rewrite their own elements or only read; functors
// may throw, nest, modify all, some or no lanes.
#include "common.h"
#include <sys/mman.h>
#include <tuple>
#include <vector>

using namespace sim;

static const Counter cMut("mutating_calls"), cImm("non_mutating_calls"), cThrow("functor_throws"), cEmpty("empty_ranges"),
    cShort("ranges_shorter_than_a_vector"), cTail("ranges_with_a_tail"), cTop("window_ends_at_inaccessible_page"),
    cBottom("window_starts_at_inaccessible_page"), cRo("runs_on_read_only_memory"), cNest("nested_calls"),
    cDirect("direct_element_writes"), cForeign("reads_of_a_range_that_others_modify"), cStall("runs_with_stalled_thread"),
    cPoke("direct_writes_by_the_functor"), cRush("writes_between_instructions"), cRev("reverse_iterator_ranges"), cChunk("ranges_in_separate_chunks");

enum { MaxWin = 128, Rush = 100 };   // Rush: the thread that runs between any two instructions
template <class T> struct P3 {
    T x, y, z;
    Vc_SIMDIZE_INTERFACE((x, y, z));
};
template <class T, class U> struct P2 {
    T x;
    U y;
    Vc_SIMDIZE_INTERFACE((x, y));
};
template <class T> struct Traits {
    typedef T E;
    enum { F = 1 };
    static std::string name() { return TypeName<T>::get(); }
};
template <class T> struct Traits<P3<T>> {
    typedef T E;
    enum { F = 3 };
    static std::string name() { return std::string("struct{") + TypeName<T>::get() + "*3}"; }
};
template <class T> struct Traits<P2<T, T>> {
    typedef T E;
    enum { F = 2 };
    static std::string name() { return std::string("struct{") + TypeName<T>::get() + "*2}"; }
};
template <class T> struct Traits<std::pair<T, T>> {
    typedef T E;
    enum { F = 2 };
    static std::string name() { return std::string("pair<") + TypeName<T>::get() + ">"; }
};
template <class T> struct Traits<std::tuple<T, T, T>> {
    typedef T E;
    enum { F = 3 };
    static std::string name() { return std::string("tuple<") + TypeName<T>::get() + "*3>"; }
};
// member f of a scalar or simdized object
template <int f, class X, bool = std::is_arithmetic<X>::value || Vc::is_simd_vector<X>::value> struct Fld {
    static X &get(X &x) { return x; }
    static const X &get(const X &x) { return x; }
};
template <int f, class X> struct Fld<f, X, false> {
    static auto get(X &x) -> decltype((Vc::SimdizeDetail::get_dispatcher<f>(x)))
    {
        return Vc::SimdizeDetail::get_dispatcher<f>(x);
    }
    static auto get(const X &x) -> decltype((Vc::SimdizeDetail::get_dispatcher<f>(x)))
    {
        return Vc::SimdizeDetail::get_dispatcher<f>(x);
    }
};
template <int f, int F> struct Each {
    template <class X, class G> static void go(X &x, const G &g)
    {
        g(f, Fld<f, typename std::remove_const<X>::type>::get(x));
        Each<f + 1, F>::go(x, g);
    }
};
template <int F> struct Each<F, F> {
    template <class X, class G> static void go(X &, const G &) {}
};
static long encode(int id, int f, int ver) { return id + 128 * f + 512 * ver; }

struct Model {
    int lo, hi;     // versions the element may have right now
};
enum { Contiguous, Reversed, Chunked, ChunkLen = 5, ChunkGap = 3 };
struct Env {
    int n;
    int layout;     // where the elements are
    int owner[MaxWin];
    unsigned char gap;
    char *win;
    Model m[MaxWin];
    Plan *plan;
};
static Env E;
static Room room;

enum OpId { OMut, OMutSome, OMutLambda, OImmRef, OImmVal, OImmLambda, OWriter, NOps };
static const char *const opNames[NOps] = {"f(V&)", "f(V&) masked", "[](auto&)", "f(const V&)", "f(V)", "[](const auto&)",
                                          "element writer"};
static char ctxText[MaxThreads][120];
struct Boom {
    int tid, call;
};
struct Call {      // one simd_for_each call as its functor sees it
    int tid, op;
    int a, b;      // elements
    int next;      // element the next functor call starts with
    int calls;
    int throwAt;   // -1: never
    bool throwLate;
    bool mut;
    bool own;      // the range belongs to the calling thread: versions are exact
    bool nest;
    bool byN;
    int lo[MaxWin];  // versions at the start
    int throwLen;
    int segLo, segHi;  // own: elements that only the calling thread writes
    uint64_t dice;
};

template <class T> struct Ops {
    typedef typename Traits<T>::E El;
    enum { F = Traits<T>::F, S = Vc::Vector<El>::Size };
    static int slot(int id) { return E.layout == Reversed ? E.n - 1 - id : E.layout == Chunked ? id + id / ChunkLen * ChunkGap : id; }
    static int slots() { return E.layout == Chunked ? slot(E.n - 1) + 1 : E.n; }
    static T *at(int id) { return reinterpret_cast<T *>(E.win) + slot(id); }
    // what the iterator of a container with separate chunks (like std::deque) is
    template <class Q> struct ChunkIt {
        typedef std::random_access_iterator_tag iterator_category;
        typedef T value_type;
        typedef ptrdiff_t difference_type;
        typedef Q *pointer;
        typedef Q &reference;
        int id;
        Q &operator*() const { return *at(id); }
        Q *operator->() const { return at(id); }
        Q &operator[](ptrdiff_t i) const { return *at(id + int(i)); }
        ChunkIt &operator++() { ++id; return *this; }
        ChunkIt &operator--() { --id; return *this; }
        ChunkIt operator++(int) { ChunkIt c = *this; ++id; return c; }
        ChunkIt operator--(int) { ChunkIt c = *this; --id; return c; }
        ChunkIt &operator+=(ptrdiff_t d) { id += int(d); return *this; }
        ChunkIt &operator-=(ptrdiff_t d) { id -= int(d); return *this; }
        friend ChunkIt operator+(ChunkIt a, ptrdiff_t d) { return a += d; }
        friend ChunkIt operator+(ptrdiff_t d, ChunkIt a) { return a += d; }
        friend ChunkIt operator-(ChunkIt a, ptrdiff_t d) { return a -= d; }
        friend ptrdiff_t operator-(const ChunkIt &a, const ChunkIt &b) { return a.id - b.id; }
        friend bool operator==(const ChunkIt &a, const ChunkIt &b) { return a.id == b.id; }
        friend bool operator!=(const ChunkIt &a, const ChunkIt &b) { return a.id != b.id; }
        friend bool operator<(const ChunkIt &a, const ChunkIt &b) { return a.id < b.id; }
        friend bool operator>(const ChunkIt &a, const ChunkIt &b) { return a.id > b.id; }
        friend bool operator<=(const ChunkIt &a, const ChunkIt &b) { return a.id <= b.id; }
        friend bool operator>=(const ChunkIt &a, const ChunkIt &b) { return a.id >= b.id; }
    };
    template <class Q> static std::reverse_iterator<Q *> rev(int id)
    {
        return std::reverse_iterator<Q *>(reinterpret_cast<T *>(E.win) + (E.n - id));
    }
    static void set(T &t, int id, int ver)
    {
        Each<0, F>::go(t, [&](int f, El &e) { e = El(encode(id, f, ver)); });
    }
    template <class V> static void enter(Call &c, const V &v)
    {
        const int len = int(Fld<0, V>::get(v).size());
        if (c.next + len > c.b) {
            fail("outside-range", "call %d of the functor received %d elements, %d remain", c.calls, len, c.b - c.next);
        }
        for (int i = 0; i < len; ++i) {
            const int id = c.next + i;
            Each<0, F>::go(v, [&](int f, const typename std::decay<decltype(Fld<0, V>::get(v))>::type &x) {
                const long got = long(El(x[size_t(i)]));
                const long ver = (got - id - 128 * f) / 512;
                if (encode(id, f, int(ver)) != got) {
                    fail("wrong-element", "call %d, lane %d, member %d: expected element %d, received the value %ld", c.calls,
                         i, f, id, got);
                }
                if (E.owner[id] == Rush ? ver < 1 || ver > 60 : ver < c.lo[id] || ver > E.m[id].hi) {
                    fail("wrong-value", "call %d, lane %d: element %d has version %ld, it held %d to %d", c.calls, i, id, ver,
                         c.lo[id], E.m[id].hi);
                }
            });
        }
    }
    template <class V> static void modify(const Call &c, V &v)
    {
        const int len = int(Fld<0, V>::get(v).size());
        for (int i = 0; i < len; ++i) {
            const int id = c.next + i;
            if (c.op != OMutSome || id % 3 == 0) E.m[id].hi++;
        }
        Each<0, F>::go(v, [&](int, typename std::decay<decltype(Fld<0, V>::get(v))>::type &x) {
            if (c.op == OMutSome) {
                for (int i = 0; i < len; ++i) {
                    if ((c.next + i) % 3 == 0) x[size_t(i)] = El(x[size_t(i)]) + El(512);
                }
            } else {
                x += El(512);
            }
        });
    }
    template <class V> static void scribble(V &v)   // a copy the functor owns
    {
        Each<0, F>::go(v, [&](int, typename std::decay<decltype(Fld<0, V>::get(v))>::type &x) { x += El(512); });
    }
    static void nested(Live &live)
    {
        T local[S + 3];
        for (int i = 0; i < S + 3; ++i) set(local[i], i, 1);
        int sum = 0;
        live([&] { Vc::simd_for_each_n(&local[0], S + 3, Summer{&sum}); });
        if (sum != S + 3) fail("wrong-element", "nested call: %d of %d elements visited", sum, S + 3);
        for (int i = 0; i < S + 3; ++i) {
            T want;
            memset(&want, 0, sizeof(T));
            set(want, i, 2);
            if (!same(want, local[i])) fail("wrong-contents", "nested call: element %d of a private array", i);
        }
        cNest++;
    }
    struct Summer {
        int *sum;
        template <class V> void operator()(V &v)
        {
            *sum += int(Fld<0, V>::get(v).size());
            Ops::scribble(v);
        }
    };
    // the functor writes, directly, an element other than those it was called with: one behind
    // them must be passed to it later with that value, one before them has been written back
    static void poke(Call &c, int len, Live &live)
    {
        const int others = c.segHi - c.segLo - len;
        if (others <= 0 || E.plan->cfg[4]) return;
        int id = c.segLo + int((c.dice >> 20) % uint64_t(others));
        if (id >= c.next) id += len;
        if (E.m[id].hi >= 60) return;
        const int v = readVersion(id);
        if (v != E.m[id].hi) {
            fail(v < E.m[id].hi ? "lost-write" : "wrong-contents", "during call %d, with element %d: element %d has version %d instead of %d", c.calls,
                 c.next, id, v, E.m[id].hi);
        }
        T t = *at(id);
        set(t, id, ++E.m[id].hi);
        live([&] { *const_cast<T *>(at(id)) = t; });
        E.m[id].lo = c.lo[id] = E.m[id].hi;
        cPoke++;
    }
    // what every functor does
    template <class V> static void called(Call &c, V &v)
    {
        NoYield ny;
        Live live{ny};
        enter(c, v);
        const int len = int(Fld<0, typename std::remove_const<V>::type>::get(v).size());
        if (c.nest && c.calls == 0) nested(live);
        if (c.own && (c.dice = c.dice * 6364136223846793005ull + 1442695040888963407ull) >> 62 == 0) poke(c, len, live);
        const bool boom = c.throwAt == c.calls;
        if (boom && !c.throwLate) {
            c.throwLen = len;
            ++c.calls;
            cThrow++;
            throw Boom{c.tid, c.calls};
        }
        touch(c, v, std::is_const<V>());
        if (boom) {
            c.throwLen = len;
            ++c.calls;
            cThrow++;
            throw Boom{c.tid, c.calls};
        }
        c.next += len;
        ++c.calls;
    }
    template <class V> static void touch(const Call &, V &, std::true_type) {}
    template <class V> static void touch(const Call &c, V &v, std::false_type)
    {
        if (c.mut) modify(c, v);
        else scribble(v);
    }
    struct Mut {
        Call *c;
        int count;
        template <class V> void operator()(V &v)
        {
            ++count;
            Ops::called(*c, v);
        }
    };
    struct ImmRef {
        Call *c;
        int count;
        template <class V> void operator()(const V &v)
        {
            ++count;
            Ops::called(*c, v);
        }
    };
    struct ImmVal {
        Call *c;
        int count;
        template <class V> void operator()(V v)
        {
            ++count;
            Ops::called(*c, v);
        }
    };
    template <class It, class Fn> static NOINLINE Fn each(It a, It b, Fn f) { return Vc::simd_for_each(a, b, f); }
    template <class It, class Fn> static NOINLINE Fn eachN(It a, size_t n, Fn f) { return Vc::simd_for_each_n(a, n, f); }
    template <class It, class Fn> static int callIt(const Call &c, It a, It b, Fn f)
    {
        return c.byN ? eachN(a, size_t(b - a), f).count : each(a, b, f).count;
    }
    template <class It, class Fn> static int callLambda(const Call &c, It a, It b, Fn f)
    {
        if (c.byN) eachN(a, size_t(b - a), f);
        else each(a, b, f);
        return -1;
    }
    template <class It> static int dispatchMut(Call &c, It a, It b)
    {
        if (c.op == OMutLambda) {
            Call *const p = &c;
            return callLambda(c, a, b, [p](auto &v) { Ops::called(*p, v); });
        }
        return callIt(c, a, b, Mut{&c, 0});
    }
    template <class It> static int dispatchImm(Call &c, It a, It b)
    {
        if (c.op == OImmLambda) {
            Call *const p = &c;
            return callLambda(c, a, b, [p](const auto &v) { Ops::called(*p, v); });
        }
        if (c.op == OImmVal) return callIt(c, a, b, ImmVal{&c, 0});
        return callIt(c, a, b, ImmRef{&c, 0});
    }
    // an element's members as memory has them
    static int readVersion(int id)
    {
        int ver = -1;
        const T t = *at(id);
        Each<0, F>::go(t, [&](int f, const El &e) {
            const long got = long(e);
            const int v = int((got - id - 128 * f) / 512);
            if (encode(id, f, v) != got) {
                fail("wrong-contents", "element %d, member %d contains %ld", id, f, got);
            }
            if (ver >= 0 && v != ver) fail("wrong-contents", "element %d: members have versions %d and %d", id, ver, v);
            ver = v;
        });
        return ver;
    }
    static void expect(int id, const char *what)
    {
        const int v = readVersion(id);
        if (v < E.m[id].lo || v > E.m[id].hi) {
            fail(v < E.m[id].lo ? "lost-write" : "wrong-contents", "%s: element %d has version %d instead of %d%s", what, id, v,
                 E.m[id].lo, E.m[id].lo != E.m[id].hi ? " or the next" : "");
        }
    }
    static void one(int tid, const Op &o)
    {
        NoYield ny;
        Live live{ny};
        Rng r(o.seed);
        const bool mut = o.op <= OMutLambda;
        snprintf(ctxText[tid], sizeof(ctxText[tid]), "%s %s", Traits<T>::name().c_str(), opNames[o.op]);
        context(ctxText[tid]);
        // the thread's segments
        int seg[MaxWin][2], ns = 0;
        for (int i = 0; i < E.n;) {
            int j = i;
            while (j < E.n && E.owner[j] == E.owner[i]) ++j;
            if (E.owner[i] == tid) {
                seg[ns][0] = i;
                seg[ns++][1] = j;
            }
            i = j;
        }
        if (o.op == OWriter) {
            for (int k = 0; k < o.a[0] && ns; ++k) {
                const int *s = seg[r.below(uint64_t(ns))];
                const int id = s[0] + int(r.below(uint64_t(s[1] - s[0])));
                if (E.m[id].hi >= 60) continue;
                E.m[id].hi++;
                T t = *at(id);
                set(t, id, E.m[id].hi);
                live([&] { *const_cast<T *>(at(id)) = t; });
                E.m[id].lo = E.m[id].hi;
                cDirect++;
            }
            countOp(o.op);
            return;
        }
        static Call calls[MaxThreads];
        Call &c = calls[tid];
        memset(&c, 0, sizeof(c));
        c.tid = tid;
        c.op = o.op;
        c.mut = mut;
        int lo = 0, hi = E.n;
        const bool own = ns && r.chance(30);
        if (mut || own) {
            if (!ns) return;
            const int *s = seg[r.below(uint64_t(ns))];
            c.segLo = lo = s[0];
            c.segHi = hi = s[1];
        } else {
            cForeign++;
        }
        const unsigned shape = unsigned(r.below(4));
        if (shape == 0) {          // all of it
            c.a = lo;
            c.b = hi;
        } else if (shape == 1) {   // the upper end
            c.a = int(r.range(lo, hi));
            c.b = hi;
        } else {
            c.a = int(r.range(lo, hi));
            c.b = int(r.range(c.a, hi));
        }
        c.next = c.a;
        c.own = mut || own;
        c.dice = r.next();
        c.byN = r.chance(50);
        c.nest = r.chance(8);
        c.throwAt = r.chance(25) ? int(r.below(uint64_t(2 + (c.b - c.a) / S + (c.b - c.a) % S))) : -1;
        c.throwLate = r.chance(50);
        for (int id = c.a; id < c.b; ++id) {
            if (E.m[id].hi >= 60) return;
            c.lo[id] = E.m[id].lo;
        }
        if (c.a == c.b) cEmpty++;
        else if (c.b - c.a < S) cShort++;
        else if ((c.b - c.a) % S) cTail++;
        (mut ? cMut : cImm)++;
        countOp(o.op);
        const unsigned it = unsigned(r.below(3));
        bool thrown = false;
        int count = -1;
        T *const pa = at(c.a), *const pb = at(c.b);
        if (E.layout == Reversed) cRev++;
        if (E.layout == Chunked) cChunk++;
        live([&] {
            try {
                if (E.layout == Reversed) {
                    count = mut ? dispatchMut(c, rev<T>(c.a), rev<T>(c.b)) : dispatchImm(c, rev<const T>(c.a), rev<const T>(c.b));
                } else if (E.layout == Chunked) {
                    count = mut ? dispatchMut(c, ChunkIt<T>{c.a}, ChunkIt<T>{c.b}) : dispatchImm(c, ChunkIt<const T>{c.a}, ChunkIt<const T>{c.b});
                } else if (mut) {
                    count = it == 0 ? dispatchMut(c, typename std::vector<T>::iterator(pa), typename std::vector<T>::iterator(pb))
                                    : dispatchMut(c, pa, pb);
                } else if (it == 0) {
                    count = dispatchImm(c, typename std::vector<T>::const_iterator(pa),
                                        typename std::vector<T>::const_iterator(pb));
                } else if (it == 1) {
                    count = dispatchImm(c, static_cast<const T *>(pa), static_cast<const T *>(pb));
                } else {
                    count = dispatchImm(c, pa, pb);
                }
            } catch (const Boom &) {
                thrown = true;
            }
        });
        if (thrown != (c.throwAt >= 0 && c.throwAt < c.calls) || (!thrown && c.throwLen)) {
            fail("exception", "the functor %s in call %d, the caller saw %s", c.throwLen ? "threw" : "did not throw", c.calls,
                 thrown ? "an exception" : "none");
        }
        if (!thrown && c.next != c.b) {
            fail("element-skipped", "elements %d to %d were processed, the range ends at %d", c.a, c.next, c.b);
        }
        if (!thrown && count >= 0 && count != c.calls) {
            fail("functor-not-returned", "the returned functor was called %d times of %d", count, c.calls);
        }
        if (mut) {
            // what was written
            const int end = thrown ? c.next + c.throwLen : c.b;
            for (int id = c.a; id < end; ++id) {
                if (id >= c.next) {   // the call that threw: written back or not
                    const int v = readVersion(id);
                    if (v < E.m[id].lo || v > E.m[id].hi) fail("wrong-contents", "element %d of the throwing call", id);
                    E.m[id].lo = E.m[id].hi = v;
                } else {
                    E.m[id].lo = E.m[id].hi;
                    expect(id, "after the call");
                }
            }
            for (int id = c.next + (thrown ? c.throwLen : 0); id < c.b; ++id) expect(id, "after the call");
        }
        note(uint64_t(c.calls) * 131 + uint64_t(c.next));
    }
    template <class G> static void eachGap(const G &g)
    {
        for (int id = ChunkLen; id < E.n; id += ChunkLen) g(reinterpret_cast<char *>(at(id) - ChunkGap), id);
    }
    static void checkGaps()
    {
        eachGap([](char *g, int id) {
            for (size_t k = 0; k < ChunkGap * sizeof(T); ++k) {
                if (static_cast<unsigned char>(g[k]) != E.gap) {
                    fail("write-outside", "byte %zu between element %d and %d was written", k, id - 1, id);
                }
            }
        });
    }
    // what the Rush thread does: its elements are what it left, and get another value
    static void rush()
    {
        cRush++;
        if (E.layout == Chunked) {    // so do the bytes between its chunks
            checkGaps();
            ++E.gap;
            eachGap([](char *g, int) { memset(g, E.gap, ChunkGap * sizeof(T)); });
        }
        for (int id = 0; id < E.n; ++id) {
            if (E.owner[id] != Rush) continue;
            Model &m = E.m[id];
            const int v = readVersion(id);
            if (v != m.hi) {
                fail("lost-write", "a thread that rewrites element %d found version %d, its last was %d", id, v, m.hi);
            }
            m.lo = m.hi = m.hi == 60 ? 1 : m.hi + 1;
            set(*at(id), id, m.hi);
        }
    }
    static void body(int tid, void *)
    {
        NoYield ny;
        Live live{ny};
        for (int i = 0; i < E.plan->nops; ++i) {
            if (E.plan->ops[i].thread == tid) {
                const Op &o = E.plan->ops[i];
                live([&] { one(tid, o); });
            }
        }
    }
    static void run(Plan &p)
    {
        NoYield ny;
        Live live{ny};
        E.plan = &p;
        E.n = int(p.cfg[1]);
        memset(room.base, 0x5A, room.size);
        E.gap = 0x5A;
        E.layout = int(p.cfg[5]);
        const size_t bytes = size_t(slots()) * sizeof(T);
        if (p.cfg[2] == 0) {
            E.win = room.base;
            cBottom++;
        } else if (p.cfg[2] == 1) {
            E.win = room.end() - bytes;
            cTop++;
        } else {
            E.win = room.base + 64 + size_t(p.cfg[2]) % 16 * sizeof(El);
        }
        addGuard(room.base - 4096, room.base, "access-outside");
        addGuard(room.end(), room.end() + 4096, "access-outside");
        Rng r(uint64_t(p.cfg[3]));
        const uint64_t owners = uint64_t(p.nthreads + (p.cfg[6] ? 1 : 0));
        int who = int(r.below(owners));
        for (int i = 0; i < E.n; ++i) {
            if (r.chance(i ? 12 : 0)) who = int(r.below(owners));
            E.owner[i] = p.cfg[6] && who == p.nthreads ? int(Rush) : who;
            E.m[i].lo = E.m[i].hi = 1;
            set(*at(i), i, 1);
        }
        if (p.cfg[4]) {
            cRo++;
            protect(room.base, room.size, PROT_READ);
            addGuard(room.base, room.end(), "write-by-reader");
        }
        if (p.policy == Stall) cStall++;
        if (p.cfg[6]) between(rush);
        live([&] { parallel(p.nthreads, body, nullptr); });
        if (p.cfg[6]) {
            between(nullptr);
        }
        protect(room.base, room.size, PROT_READ | PROT_WRITE);
        for (int i = 0; i < E.n; ++i) expect(i, "at the end");
        if (E.layout == Chunked) checkGaps();
        for (char *q = room.base; q < room.end(); ++q) {
            if (q == E.win) {
                q += bytes;
                if (q >= room.end()) break;
            }
            if (*q != 0x5A) fail("write-outside", "byte %ld relative to the window was written", long(q - E.win));
        }
    }
    static void generate(Rng &r, Plan &p)
    {
        p.cfg[1] = r.chance(20) ? r.range(1, S) : r.range(S + 1, 3 * S + 20 > MaxWin ? MaxWin : 3 * S + 20);
        p.cfg[2] = long(r.below(20));
        if (p.cfg[2] > 2 && r.chance(60)) p.cfg[2] = long(r.below(2));
        p.cfg[3] = long(r.next() >> 2);
        p.cfg[4] = r.chance(20);
        p.cfg[5] = r.chance(70) ? Contiguous : r.chance(50) ? Reversed : Chunked;
        p.cfg[6] = !p.cfg[4] && r.chance(25);
        p.nthreads = int(r.range(1, 3));
        const int total = int(r.range(p.nthreads, 7));
        for (int i = 0; i < total; ++i) {
            const int t = i < p.nthreads ? i : int(r.below(uint64_t(p.nthreads)));
            const int op = p.cfg[4] ? int(r.range(OImmRef, OImmLambda))
                         : r.chance(20) ? int(OWriter) : r.chance(60) ? int(r.range(OMut, OMutLambda)) : int(r.range(OImmRef, OImmLambda));
            p.add(t, op, r.next(), r.range(1, 12));
        }
        choosePolicy(r, p, 60 * total);
    }
};
struct TypeEntry {
    void (*run)(Plan &);
    void (*generate)(Rng &, Plan &);
};
template <class T> static TypeEntry entry() { return {&Ops<T>::run, &Ops<T>::generate}; }
static std::vector<TypeEntry> types()
{
#if PART == 0
    return {entry<float>(), entry<double>(), entry<int>()};
#elif PART == 1
    return {entry<unsigned>(), entry<short>(), entry<unsigned short>()};
#elif PART == 2
    return {entry<P3<float>>(), entry<std::pair<float, float>>(), entry<P2<double, double>>()};
#else
    return {entry<std::tuple<float, float, float>>(), entry<P3<short>>(), entry<std::pair<int, int>>()};
#endif
}
static std::vector<TypeEntry> *table;
static void setup()
{
    room = makeRoom(2);
    table = new std::vector<TypeEntry>(types());
}
static void generate(Rng &r, Plan &p)
{
    const size_t t = r.below(table->size());
    (*table)[t].generate(r, p);
    p.cfg[0] = long(t);
}
static void run(Plan &p) { (*table)[size_t(p.cfg[0])].run(p); }
static const char *opName(int i) { return opNames[i]; }
Workload sim::workload()
{
    return {"C04", setup, generate, run, opName, ""};
}
