// C10  Callbacks of generate, fill, call, apply and mask iteration: once per (active) lane, in
// lane order, with the right argument, also when they throw, nest or run beside other threads.
#include "common.h"
#include <Vc/Memory>
#include <limits>

using namespace sim;

static const Counter cThrow("callbacks_that_throw"), cNest("callbacks_that_use_the_library"), cRec("callbacks_that_call_back_again"),
    cShared("operations_on_shared_vectors"), cEmpty("empty_masks"), cFullMask("full_masks"), cCalls("callback_calls"), cLast("throws_at_the_last_lane"),
    cFirst("throws_at_the_first_lane");

struct Bomb {
    int n;
};
enum { MaxLanes = 48, MaxLog = 256 };
// what the callback of one thread does and saw
struct Script {
    int lanes;
    int size;
    bool indexed;             // the argument is an index
    bool byValue;             // results are converted by the library (int or double instead of the entry type)
    int throwAt;              // call number, -1: never
    int nest;                 // what else the callback does
    uint64_t seed;
    int calls;
    bool over;                // it threw
    struct Call {
        long index;
        unsigned char value[8];
    } log[MaxLog];
    unsigned char results[MaxLog][8];
    int nresults;
};
static Script scripts[MaxThreads];
static void nestedUse(Rng &r, int depth);

template <class T> static T anyValue(Rng &r)
{
    if (std::is_floating_point<T>::value) {
        switch (r.below(10)) {
        case 0: return std::numeric_limits<T>::infinity();
        case 1: return -std::numeric_limits<T>::max();
        case 2: return T(-0.0);
        case 3: return std::numeric_limits<T>::denorm_min();
        case 4: return std::numeric_limits<T>::quiet_NaN();
        }
        return T(long(r.below(2000001)) - 1000000) / T(64);
    }
    return r.below(6) ? T(r.next()) : r.below(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
}
// bookkeeping of one call, executed by the simulated thread
template <class T> static NOINLINE T answer(Script &s, long index, const T *value)
{
    NoYield ny;
    Live live{ny};
    cCalls++;
    if (s.over) fail("called-after-throw", "%s: another call after the callback threw", "callback");
    if (s.calls >= MaxLog) fail("called-too-often", "%d calls", s.calls);
    Script::Call &c = s.log[s.calls];
    c.index = index;
    memset(c.value, 0, 8);
    if (value) memcpy(c.value, value, sizeof(T));
    const int number = s.calls++;
    Rng r(s.seed + uint64_t(number) * 77);
    if (s.nest && r.below(2)) {
        cNest++;
        const int depth = s.nest;
        live([&] { nestedUse(r, depth); });
    }
    if (number == s.throwAt) {
        s.over = true;
        cThrow++;
        if (number == 0) cFirst++;
        if (number == s.lanes - 1) cLast++;
        throw Bomb{number};
    }
    const T x = anyValue<T>(r);
    memset(s.results[number], 0, 8);
    memcpy(s.results[number], &x, sizeof(T));
    s.nresults = s.calls;
    return x;
}
template <class T> static Script &mine() { return scripts[sim::self()]; }
// plain functions, as fill wants them
template <class T> static T fillNone() { return answer<T>(mine<T>(), -1, nullptr); }
template <class T> static T fillIndex(int i) { return answer<T>(mine<T>(), i, nullptr); }
template <class T> static T fillSize(size_t i) { return answer<T>(mine<T>(), long(i), nullptr); }
template <class T> static T applyPlain(T x) { return answer<T>(mine<T>(), -1, &x); }
// a functor with state
template <class T> struct Functor {
    Script &s;
    int before;
    T operator()(T x)
    {
        ++before;
        return answer<T>(s, -1, &x);
    }
};
template <class T> struct ConstFunctor {
    Script &s;
    T operator()(T x) const { return answer<T>(s, -1, &x); }
};
// other uses of the library inside of a callback
static void nestedUse(Rng &r, int depth)
{
    const float f = float(r.below(1000));
    const Vc::float_v x([&](int i) { return f + float(i); });
    float got[Vc::float_v::Size];
    switch (r.below(6)) {
    case 0: x.apply([](float y) { return y * 2.f; }).store(got, Vc::Unaligned); break;
    case 1: Vc::sin(x).store(got, Vc::Unaligned); break;
    case 2: x.sorted().store(got, Vc::Unaligned); break;
    case 3: {
        Vc::float_v y = x;
        y(x > f) += 1.f;
        y.store(got, Vc::Unaligned);
        break;
    }
    case 4: {
        // the same kind of operation again, with a callback that throws half way
        cRec++;
        try {
            const Vc::short_v z([](int i) -> short {
                if (i == int(Vc::short_v::Size / 2)) throw Bomb{i};
                return short(i);
            });
            fail("exception-lost", "the exception of a nested callback was lost (%d)", int(z[0]));
        } catch (Bomb &b) {
            if (b.n != int(Vc::short_v::Size / 2)) fail("wrong-exception", "the exception of a nested callback is another one");
        }
        return;
    }
    default: {
        const Vc::float_m m = Vc::float_m::generate([&](int i) { return (depth >> i & 1) != 0; });
        for (size_t i = 0; i < Vc::float_m::Size; ++i) {
            if (m[i] != ((depth >> i & 1) != 0)) fail("nested-wrong", "a mask generated inside of a callback is wrong");
        }
        return;
    }
    }
    asm volatile("" : : "r"(got) : "memory");
}

// ------------------------------------------------------------------ operations
enum { OGenerate, OConstruct, OFill, OFillIndex, OCall, OCallMasked, OApply, OApplyMasked, OWhereCall, OWhereApply, OSorted, OMask, OMaskLoop, OLaneLoop, OMaskLanes, NOps };
static const char *const opNames[NOps] = {"generate", "generating constructor", "fill", "fill(index)", "call", "call(mask)", "apply", "apply(mask)",
                                          "v(mask).call", "v(mask).apply", "callWithValuesSorted", "Mask::generate", "where(mask) loop", "loop over the lanes", "loop over a mask's lanes"};
enum { ObjBytes = 256 };
struct Arena {               // the vectors an operation works on
    alignas(64) char operand[ObjBytes];
    alignas(64) char result[ObjBytes];
    alignas(64) char other[ObjBytes];
    bool mask[MaxLanes];
    bool got[MaxLanes];
    int visited[MaxLog], nvisited, breakAt;
};
struct Kind {
    std::string name;
    int lanes, size;
    bool has[NOps];
    void (*init)(void *, const void *);                              // elements -> vector
    void (*read)(const void *, void *);
    void (*run)(int op, int form, void *operand, Arena &, Script &);
    void (*fillElems)(void *, Rng &);
    bool (*less)(const void *, const void *);
    bool (*equal)(const void *, const void *);
    bool (*nan)(const void *);
};
template <class V, bool Array> struct Ops {
    typedef typename V::EntryType T;
    typedef typename V::Mask M;
    static void init(void *p, const void *e)
    {
        T x[V::Size];
        memcpy(x, e, sizeof(x));
        new (p) V(x, Vc::Unaligned);
    }
    static void read(const void *p, void *e)
    {
        T x[V::Size];
        static_cast<const V *>(p)->store(x, Vc::Unaligned);
        memcpy(e, x, sizeof(x));
    }
    static void fillElems(void *p, Rng &r)
    {
        T x[V::Size];
        const int same = int(r.below(3));
        for (size_t i = 0; i < V::Size; ++i) x[i] = same == 0 && i && r.below(2) ? x[r.below(i)] : anyValue<T>(r);
        memcpy(p, x, sizeof(x));
    }
    static bool less(const void *a, const void *b) { return *static_cast<const T *>(a) < *static_cast<const T *>(b); }
    static bool equal(const void *a, const void *b) { return *static_cast<const T *>(a) == *static_cast<const T *>(b); }
    static bool nan(const void *a) { return *static_cast<const T *>(a) != *static_cast<const T *>(a); }
    static NOINLINE M mask(const Arena &a)
    {
        NoYield ny;
        return maskFrom<M>(a.mask);
    }
    template <class Q> static NOINLINE void only(int op, int form, Q &v, Q &res, Arena &a, Script &s, std::false_type)
    {
        const Q &cv = v;
        switch (op) {
        case OFill: v.fill(fillNone<T>); break;
        case OFillIndex:
            if (form & 1) v.fill(fillIndex<T>);
            else v.fill(fillSize<T>);
            break;
        case OCall:
            if (form == 0) cv.call([&](T x) { answer<T>(s, -1, &x); });
            else if (form == 1) cv.call(applyPlain<T>);
            else {
                Functor<T> f = {s, 0};
                cv.call(f);
                if (f.before != s.calls) fail("functor-copied", "call counted %d calls in the functor it was given, %d happened", f.before, s.calls);
            }
            break;
        case OCallMasked:
            if (form == 0) cv.call([&](T x) { answer<T>(s, -1, &x); }, mask(a));
            else if (form == 1) cv.call(applyPlain<T>, mask(a));
            else {
                Functor<T> f = {s, 0};
                cv.call(f, mask(a));
            }
            break;
        case OWhereCall:
            if (form == 0) v(mask(a)).call([&](T x) { answer<T>(s, -1, &x); });
            else v(mask(a)).call(applyPlain<T>);
            break;
        case OSorted:
            v.callWithValuesSorted([&](T x) { answer<T>(s, -1, &x); });
            break;
        }
    }
    template <class Q> static void only(int, int, Q &, Q &, Arena &, Script &, std::true_type) {}
    static NOINLINE void run(int op, int form, void *operand, Arena &a, Script &s)
    {
        V &v = *reinterpret_cast<V *>(operand);
        const V &cv = v;
        V &res = *reinterpret_cast<V *>(a.result);
        switch (op) {
        case OGenerate:
            if (form == 0) res = V::generate([&](int i) { return answer<T>(s, i, nullptr); });
            else if (form == 1) res = V::generate([&](size_t i) { return answer<T>(s, long(i), nullptr); });
            else {
                auto g = [&](unsigned i) -> T { return answer<T>(s, long(i), nullptr); };
                const auto &cg = g;
                res = V::generate(cg);
            }
            break;
        case OConstruct:
            if (form == 0) res = V([&](int i) { return answer<T>(s, i, nullptr); });
            else if (form == 1) res = V([&](size_t i) { return answer<T>(s, long(i), nullptr); });
            else new (a.result) V([&](unsigned i) { return answer<T>(s, long(i), nullptr); });
            break;
        case OApply:
            if (form == 0) res = cv.apply([&](T x) { return answer<T>(s, -1, &x); });
            else if (form == 1) res = cv.apply(applyPlain<T>);
            else {
                const ConstFunctor<T> f = {s};
                res = cv.apply(f);
            }
            break;
        case OApplyMasked:
            if (form == 0) res = cv.apply([&](T x) { return answer<T>(s, -1, &x); }, mask(a));
            else if (form == 1) res = cv.apply(applyPlain<T>, mask(a));
            else {
                const ConstFunctor<T> f = {s};
                res = cv.apply(f, mask(a));
            }
            break;
        case OWhereApply:
            if (form == 0) res = v(mask(a)).apply([&](T x) { return answer<T>(s, -1, &x); });
            else if (form == 1) res = v(mask(a)).apply(applyPlain<T>);
            else {
                const ConstFunctor<T> f = {s};
                res = v(mask(a)).apply(f);
            }
            break;
        case OMask: {
            const M m = M::generate([&](int i) {
                T x = answer<T>(s, i, nullptr);
                unsigned char b;
                memcpy(&b, &x, 1);
                return (b & 1) != 0;
            });
            NoYield ny;
            for (size_t i = 0; i < V::Size; ++i) a.got[i] = m[i];
            break;
        }
        case OMaskLoop: {
            M m = mask(a);
            if (form == 3) {    // the iterators by hand
                auto it = begin(Vc::where(m));
                const auto last = end(Vc::where(m));
                while (it != last) {
                    const auto old = it++;
                    size_t i = *old;
                    if (old == it || i != size_t(old.operator->())) fail("wrong-argument", "where(mask) iterator: lane %d", int(i));
                    {
                        NoYield ny;
                        if (a.nvisited < MaxLog) a.visited[a.nvisited++] = int(i);
                    }
                    answer<T>(s, long(i), nullptr);
                }
                break;
            }
            for (size_t i : Vc::where(m)) {
                {
                    NoYield ny;
                    if (a.nvisited < MaxLog) a.visited[a.nvisited++] = int(i);
                }
                answer<T>(s, long(i), nullptr);
                if (form == 1) m = !m;          // the loop goes over the mask as it was
                if (form == 2 && a.nvisited == a.breakAt) break;
            }
            break;
        }
        case OLaneLoop:
            if (form == 0) {
                size_t i = 0;
                for (const T x : cv) {
                    const T again = begin(cv)[int(i)], third = i ? (begin(cv) + 1)[int(i) - 1] : T(x);
                    if (memcmp(&x, &again, sizeof(T)) || memcmp(&x, &third, sizeof(T))) fail("wrong-argument", "lane %d is another one through begin()[i]", int(i));
                    answer<T>(s, -1, &x);
                    ++i;
                }
            } else if (form == 1) {
                for (auto it = begin(v); it != end(v); ++it) {
                    const T old = *it;
                    *it = answer<T>(s, -1, &old);
                }
            } else {
                using std::begin;
                using std::end;
                auto it = begin(v);
                const auto last = end(v);
                size_t i = 0;
                while (it < last) {
                    const T old = *it++;
                    if (size_t(last - it) != V::Size - 1 - i) fail("wrong-order", "%s: %d lanes left after lane %d", "lane iterator", int(last - it), int(i));
                    const T again = (last - (last - it))[-1], third = *(begin(v) + int(i));
                    auto q = last, before = it;
                    q -= last - it;
                    before -= 1;
                    const auto forth = 1 + before, fifth = before + 1;
                    bool bad = !(q == it) || q != it || !(q <= it) || !(q >= it) || q < it || q > it || !(it <= last) || !(before < it) || !(it > before) || !(before <= it) ||
                               before >= it || before > it || it < before || it <= before || !(it >= before) || before == it || !(before != it) || forth != it || fifth != it ||
                               it - before != 1 || before - it != -1;
                    q += -1;
                    bad |= q != before;
                    if (bad) fail("wrong-order", "lane iterators of lanes %d and %d compare or move wrongly", int(i), int(i) + 1);
                    if (memcmp(&old, &again, sizeof(T)) || memcmp(&old, &third, sizeof(T))) fail("wrong-argument", "lane %d is another one through %s", int(i), "it[-1] or begin + i");
                    answer<T>(s, -1, &old);
                    ++i;
                }
            }
            break;
        case OMaskLanes: {
            M m = mask(a);
            const M &cm = m;
            int i = 0;
            if (form == 0) {
                for (const bool b : cm) {
                    if (bool(begin(cm)[i]) != b || (i && bool((begin(cm) + 1)[i - 1]) != b)) fail("wrong-argument", "lane %d of a mask is another one through begin()[i]", i);
                    a.got[i++] = b;
                    answer<T>(s, i - 1, nullptr);
                }
            } else {
                for (auto it = begin(m); it != end(m); ++it) {
                    const bool old = *it;
                    a.got[i++] = old;
                    if (form == 2) *it = !old;
                    answer<T>(s, i - 1, nullptr);
                }
                NoYield ny;
                for (size_t k = 0; k < V::Size; ++k) {
                    if (bool(m[k]) != (a.mask[k] != (form == 2))) fail("wrong-result", "lane %d of a mask is not what was assigned through the iterator", int(k));
                }
            }
            break;
        }
        default:
            only(op, form, v, res, a, s, std::integral_constant<bool, Array>());
        }
    }
    static Kind kind()
    {
        Kind k = {VName<V>::get(), int(V::Size), int(sizeof(T)), {}, init, read, run, fillElems, less, equal, nan};
        for (int i = 0; i < NOps; ++i) k.has[i] = true;
        if (Array) k.has[OFill] = k.has[OFillIndex] = k.has[OCall] = k.has[OCallMasked] = k.has[OWhereCall] = k.has[OSorted] = false;
        static_assert(sizeof(V) <= ObjBytes && V::Size <= MaxLanes, "");
        return k;
    }
};
static Kind kinds[24];
static int nKinds;
template <class V> static void add() { kinds[nKinds++] = Ops<V, Vc::Traits::isSimdArray<V>::value>::kind(); }
static void makeKinds()
{
#if PART == 0
    add<Vc::float_v>();
    add<Vc::double_v>();
    add<Vc::int_v>();
    add<Vc::uint_v>();
    add<Vc::short_v>();
    add<Vc::ushort_v>();
#elif PART == 1
#ifdef Vc_IMPL_AVX
    add<Vc::SSE::float_v>();
    add<Vc::SSE::double_v>();
    add<Vc::SSE::int_v>();
    add<Vc::SSE::uint_v>();
    add<Vc::SSE::ushort_v>();
    add<Vc::SSE::short_v>();
#endif
#ifndef Vc_IMPL_Scalar
    add<Vc::Scalar::float_v>();
    add<Vc::Scalar::double_v>();
    add<Vc::Scalar::ushort_v>();
#endif
    add<Vc::SimdArray<float, 1>>();
    add<Vc::SimdArray<double, 3>>();
#else
    add<Vc::SimdArray<float, 8>>();
    add<Vc::SimdArray<float, 11>>();
    add<Vc::SimdArray<double, 4>>();
    add<Vc::SimdArray<double, 9>>();
    add<Vc::SimdArray<int, 17>>();
    add<Vc::SimdArray<unsigned, 6>>();
    add<Vc::SimdArray<short, 24>>();
    add<Vc::SimdArray<unsigned short, 33>>();
    add<Vc::SimdArray<short, 41>>();
#endif
}

// ------------------------------------------------------------------ running
static Plan *P0;
static Arena arenas[MaxThreads];
alignas(64) static char sharedVec[24][ObjBytes];   // read by all threads
static char sharedElems[24][MaxLanes * 8];

static void one(int tid, const Op &o)
{
    NoYield ny;
    Live live{ny};
    Rng r(o.seed);
    const Kind &k = kinds[int(o.a[0]) % nKinds];
    const int kindIndex = int(o.a[0]) % nKinds;
    int op = o.op;
    while (!k.has[op]) op = (op + 3) % NOps;
    countOp(op);
    char what[128];
    snprintf(what, sizeof(what), "%s %s", k.name.c_str(), opNames[op]);
    context(opNames[op]);
    const int n = k.lanes, sz = k.size;
    Arena &a = arenas[tid];
    Script &s = scripts[tid];
    memset(&s, 0, sizeof(s));
    memset(a.operand, 0x11, sizeof(a.operand));
    memset(a.result, 0x22, sizeof(a.result));
    memset(a.other, 0x33, sizeof(a.other));
    char elems[MaxLanes * 8], resBefore[MaxLanes * 8], after[MaxLanes * 8];
    k.fillElems(elems, r);
    const bool readsOnly = op == OApply || op == OApplyMasked || op == OCall || op == OCallMasked || op == OWhereApply || op == OWhereCall;
    const int form = int(r.below(op == OMaskLoop ? 4 : 3));
    const bool shared = (readsOnly || (op == OLaneLoop && form == 0)) && r.below(3) == 0;
    if (op == OSorted) {
        for (int i = 0; i < n; ++i) {      // NaN has no place in an order
            while (k.nan(elems + i * sz)) {
                k.fillElems(after, r);
                memcpy(elems + i * sz, after, size_t(sz));
            }
        }
    }
    if (shared) {
        cShared++;
        memcpy(elems, sharedElems[kindIndex], sizeof(elems));
    } else {
        k.init(a.operand, elems);
    }
    k.fillElems(resBefore, r);
    k.init(a.result, resBefore);
    int active = 0;
    const int maskKind = int(r.below(6));
    for (int i = 0; i < n; ++i) {
        a.mask[i] = maskKind == 0 ? false : maskKind == 1 ? true : maskKind == 2 ? int(r.below(uint64_t(n))) == i : r.below(2);
        active += a.mask[i];
    }
    if (!active) cEmpty++;
    if (active == n) cFullMask++;
    a.nvisited = 0;
    a.breakAt = 1 + int(r.below(uint64_t(n)));
    const bool masked = op == OCallMasked || op == OApplyMasked || op == OWhereCall || op == OWhereApply || op == OMaskLoop;
    int expectCalls = masked ? active : n;
    s.lanes = expectCalls;
    s.size = sz;
    s.throwAt = -1;
    for (int i = 0; i < P0->nfaults; ++i) {
        if (P0->ops[P0->faults[i].at % MaxOps].seed == o.seed && expectCalls) s.throwAt = int(P0->faults[i].arg % expectCalls);
    }
    s.nest = r.below(3) == 0 ? 1 + int(r.below(255)) : 0;
    s.seed = r.next();
    void *const operand = shared ? sharedVec[kindIndex] : a.operand;
    char operandBefore[ObjBytes], resultBefore[ObjBytes];
    memcpy(operandBefore, operand, ObjBytes);
    memcpy(resultBefore, a.result, ObjBytes);
    bool threw = false;
    int thrown = -1;
    live([&] {
        try {
            k.run(op, form, operand, a, s);
        } catch (Bomb &b) {
            threw = true;
            thrown = b.n;
        }
    });
    // ---- calls
    if (threw != (s.throwAt >= 0 && s.calls > s.throwAt)) {
        fail(threw ? "unexpected-exception" : "exception-lost", "%s: the callback %s, but the exception %s", what, s.over ? "threw" : "did not throw",
             threw ? "arrived" : "did not arrive");
    }
    if (threw && thrown != s.throwAt) fail("wrong-exception", "%s: another exception arrived", what);
    if (op == OSorted) {
        for (int c = 1; c < s.calls; ++c) {
            if (!k.less(s.log[c - 1].value, s.log[c].value)) fail("wrong-order", "%s: call %d got a value that is not greater than the one before", what, c);
        }
        for (int c = 0; c < s.calls; ++c) {
            bool there = false;
            for (int i = 0; i < n; ++i) there |= k.equal(elems + i * sz, s.log[c].value);
            if (!there) fail("wrong-argument", "%s: call %d got a value that the vector does not have", what, c);
        }
        if (!threw) {
            for (int i = 0; i < n; ++i) {
                bool there = false;
                for (int c = 0; c < s.calls; ++c) there |= k.equal(elems + i * sz, s.log[c].value);
                if (!there) fail("lane-missed", "%s: no call for the value of lane %d", what, i);
            }
        }
        return;
    }
    int order[MaxLanes], m = 0;
    for (int i = 0; i < n; ++i) {
        if (!masked || a.mask[i]) order[m++] = i;
    }
    if (op == OMaskLoop && form == 2 && a.breakAt < m) m = a.breakAt;
    const int want = threw ? thrown + 1 : m;
    if (s.calls != want) fail(s.calls < want ? "lane-missed" : "called-too-often", "%s: %d calls instead of %d (%d lanes, %d active)", what, s.calls, want, n, active);
    for (int c = 0; c < s.calls; ++c) {
        const int lane = order[c];
        const bool index = op == OGenerate || op == OConstruct || op == OFillIndex || op == OMask || op == OMaskLoop || op == OMaskLanes;
        if (index) {
            if (s.log[c].index != lane) fail("wrong-order", "%s: call %d got index %ld instead of %d", what, c, s.log[c].index, lane);
        } else if (op != OFill) {
            if (memcmp(s.log[c].value, elems + lane * sz, size_t(sz))) fail("wrong-argument", "%s: call %d did not get the value of lane %d", what, c, lane);
        }
    }
    // ---- results
    const bool fills = op == OFill || op == OFillIndex || (op == OLaneLoop && form == 1);
    if (op == OMaskLanes) {
        for (int i = 0; i < s.calls; ++i) {
            if (a.got[i] != a.mask[i]) fail("wrong-argument", "%s: lane %d has another value", what, i);
        }
    }
    if (threw && op == OLaneLoop && form == 1) {   // lanes behind the one that threw are as they were
        k.read(a.operand, after);
        for (int i = 0; i < n; ++i) {
            const void *e = i < thrown ? static_cast<const void *>(s.results[i]) : elems + i * sz;
            if (memcmp(after + i * sz, e, size_t(sz))) fail("wrong-result", "%s: lane %d after an exception at lane %d", what, i, thrown);
        }
    }
    if (!fills && memcmp(operand, operandBefore, ObjBytes)) fail("operand-changed", "%s changed its operand%s", what, threw ? " (after an exception)" : "");
    if (threw && form != 2 && memcmp(a.result, resultBefore, ObjBytes)) fail("assigned-after-throw", "%s assigned its result although the callback threw", what);
    for (size_t i = 0; i < ObjBytes; ++i) {
        if (a.other[i] != 0x33) fail("wrote-elsewhere", "%s wrote outside of its operands", what);
    }
    if (threw) return;
    const bool gives = op == OGenerate || op == OConstruct || op == OApply || op == OApplyMasked || op == OWhereApply || fills;
    if (gives) {
        k.read(fills ? a.operand : a.result, after);
        int c = 0;
        for (int i = 0; i < n; ++i) {
            const void *e = !masked || a.mask[i] ? static_cast<const void *>(s.results[c++]) : elems + i * sz;
            if (memcmp(after + i * sz, e, size_t(sz))) {
                fail("wrong-result", "%s: lane %d%s is not what the callback returned for it", what, i, masked && !a.mask[i] ? " (inactive)" : "");
            }
        }
        note(hashBytes(after, size_t(n * sz)));
    }
    if (op == OMask) {
        for (int i = 0; i < n; ++i) {
            if (a.got[i] != (s.results[i][0] & 1)) fail("wrong-result", "%s: lane %d is not what the callback returned for it", what, i);
        }
    }
}
static void body(int tid, void *)
{
    NoYield ny;
    Live live{ny};
    for (int i = 0; i < P0->nops; ++i) {
        if (P0->ops[i].thread == tid) {
            const Op &o = P0->ops[i];
            live([&] { one(tid, o); });
        }
    }
}
static void run(Plan &p)
{
    NoYield ny;
    Live live{ny};
    P0 = &p;
    Rng r(uint64_t(p.cfg[0]));
    for (int i = 0; i < nKinds; ++i) {
        kinds[i].fillElems(sharedElems[i], r);
        kinds[i].init(sharedVec[i], sharedElems[i]);
    }
    setStepCap(2000000);
    live([&] { parallel(p.nthreads, body, nullptr); });
}
static void generate(Rng &r, Plan &p)
{
    p.cfg[0] = long(r.next());
    p.nthreads = int(r.below(4) == 0 ? 1 : r.range(2, 3));
    const int n = int(r.range(p.nthreads, 9));
    const bool one = r.below(3) == 0;
    const long fixedKind = long(r.below(1000)), fixedOp = long(r.below(NOps));
    for (int i = 0; i < n; ++i) {
        const int t = i < p.nthreads ? i : int(r.below(uint64_t(p.nthreads)));
        p.add(t, int(one && r.below(2) ? fixedOp : long(r.below(NOps))), r.next(), one ? fixedKind : long(r.below(1000)));
        if (r.below(3) == 0) p.fault(0, i, long(r.below(1000)));
    }
    choosePolicy(r, p, 250 * p.nthreads);
}
static void setup() { makeKinds(); }
static const char *opName(int i) { return opNames[i]; }
Workload sim::workload()
{
    return {"C10", setup, generate, run, opName, ""};
}
