// C08  Printing to streams that fail, throw, run full, recover, are redirected, formatted in all
// ways, and are terminals or not. The oracle composes the documented text from copies of the
// elements, one plain insertion each.
#include "common.h"
#include <Vc/IO>
#include <Vc/Memory>
#include <errno.h>
#include <ext/stdio_sync_filebuf.h>
#include <locale>
#include <new>
#include <ostream>
#include <sstream>

using namespace sim;

static const Counter cPrint("objects_printed"), cShort("short_writes"), cRefuse("refused_characters"), cThrow("stream_buffer_throws"),
    cSync("failed_flushes"), cTransient("transient_failures"), cTty("prints_to_terminals"), cBroken("prints_to_broken_streams"),
    cFmt("prints_with_formatting"), cRedirect("redirected_streams"), cExc("exceptions_propagated"), cFile("stdio_streams"),
    cShared("prints_of_shared_objects"), cNoBuf("prints_without_buffer"), cHang("terminals_that_hang_up");

struct Bomb {
    int n;
};
enum { MaxText = 1 << 16 };
struct Text {
    size_t n;
    char c[MaxText];
    void add(const char *s, size_t len)
    {
        if (n + len > MaxText) len = MaxText - n;
        memcpy(c + n, s, len);
        n += len;
    }
    void add(const char *s) { add(s, strlen(s)); }
};

// ------------------------------------------------------------------ where the characters go
enum { FailShort, FailThrow, FailOnce, FailOnceThrow };   // for ever / for one request
struct Sink {
    Text text;
    long limit;       // characters until it fails; -1: never
    int mode;
    long refused;     // requests not carried out completely
    long syncFail;    // the n'th flush fails
    // how many of n characters are taken
    size_t take(const char *s, size_t n)
    {
        if (limit < 0 || long(n) <= limit) {
            if (limit >= 0) limit -= long(n);
            text.add(s, n);
            return n;
        }
        const size_t k = size_t(limit);
        text.add(s, k);
        ++refused;
        cRefuse++;
        if (k) cShort++;
        if (mode == FailOnce || mode == FailOnceThrow) {
            cTransient++;
            limit = -1;
        } else {
            limit = 0;
        }
        if (mode == FailThrow || mode == FailOnceThrow) {
            cThrow++;
            throw Bomb{1};
        }
        return k;
    }
    bool flushFails()
    {
        if (syncFail > 0 && --syncFail == 0) {
            ++refused;
            cSync++;
            return true;
        }
        return false;
    }
};
class Direct : public std::streambuf
{
public:
    Sink *k;

protected:
    std::streamsize xsputn(const char *s, std::streamsize n) override { return std::streamsize(k->take(s, size_t(n))); }
    int overflow(int c) override
    {
        const char ch = char(c);
        return c == EOF ? 0 : k->take(&ch, 1) == 1 ? (unsigned char)(ch) : EOF;
    }
    int sync() override { return k->flushFails() ? -1 : 0; }
};
class Buffered : public std::streambuf
{
public:
    Sink *k;
    char area[24];
    int len;
    void start(int n)
    {
        len = n;
        setp(area, area + n);
    }
    size_t pending() const { return size_t(pptr() - pbase()); }
    const char *waiting() const { return pbase(); }

protected:
    bool empty()
    {
        const size_t n = pending();
        if (!n) return true;
        setp(area, area + len);      // a failure loses what was waiting
        return k->take(area, n) == n;
    }
    int overflow(int c) override
    {
        if (!empty()) return EOF;
        if (c != EOF) {
            *pptr() = char(c);
            pbump(1);
        }
        return 0;
    }
    int sync() override
    {
        bool ok = false;
        try {
            ok = empty();
        } catch (Bomb &) {      // the destructor of ostream's sentry does not let it through
        }
        return ok && !k->flushFails() ? 0 : -1;
    }
};
typedef __gnu_cxx::stdio_sync_filebuf<char> StdioBuf;
static ssize_t cookieWrite(void *c, const char *s, size_t n)
{
    Sink *k = static_cast<Sink *>(c);
    size_t got = 0;
    try {
        got = k->take(s, n);
    } catch (Bomb &) {          // a system call does not throw
    }
    if (got == 0) errno = ENOSPC;
    return got ? ssize_t(got) : 0;
}

// ------------------------------------------------------------------ streams
enum { BDirect, BBuffered, BStdio, BTerminal, BNull, NBufs };
struct Chan {                 // one stream buffer
    int kind;
    Sink sink;
    alignas(16) char mem[sizeof(Buffered) + sizeof(Direct) + sizeof(StdioBuf)];
    std::streambuf *buf;
    FILE *file;
    int answers;              // isatty says yes this often, then the terminal is gone; -1: always
};
enum { MaxChans = MaxThreads * 2 };
static Chan chans[MaxChans];
static std::ostream *streams[MaxThreads];
alignas(16) static char streamMem[MaxThreads][sizeof(std::ostream)];
static long ttyChecks;

static int myFileno(void *f)
{
    for (int i = 0; i < MaxChans; ++i) {
        if (chans[i].buf && chans[i].file == f) return 1000 + i;
    }
    errno = EBADF;
    return -1;
}
static int myIsatty(int fd)
{
    ++ttyChecks;
    if (fd >= 1000 && fd < 1000 + MaxChans && chans[fd - 1000].kind == BTerminal) {
        Chan &c = chans[fd - 1000];
        if (c.answers != 0) {
            if (c.answers > 0) --c.answers;
            return 1;
        }
        errno = EIO;
        return 0;
    }
    errno = ENOTTY;
    return 0;
}
static void openChan(int i, int kind, Rng &r)
{
    Chan &c = chans[i];
    c.kind = kind;
    c.sink.text.n = 0;
    c.sink.limit = -1;
    c.sink.mode = 0;
    c.sink.refused = 0;
    c.sink.syncFail = 0;
    c.file = nullptr;
    c.answers = -1;
    switch (kind) {
    case BDirect: {
        Direct *d = new (c.mem) Direct;
        d->k = &c.sink;
        c.buf = d;
        break;
    }
    case BBuffered: {
        Buffered *b = new (c.mem) Buffered;
        b->k = &c.sink;
        b->start(1 + int(r.below(20)));
        c.buf = b;
        break;
    }
    case BStdio:
    case BTerminal: {
        cookie_io_functions_t io = {nullptr, cookieWrite, nullptr, nullptr};
        c.file = fopencookie(&c.sink, "w", io);
        setvbuf(c.file, nullptr, _IONBF, 0);
        c.buf = new (c.mem) StdioBuf(c.file);
        break;
    }
    default:
        c.buf = nullptr;
    }
}
static void closeChan(int i)
{
    Chan &c = chans[i];
    if (c.buf) c.buf->~basic_streambuf();
    if (c.file) fclose(c.file);
    c.buf = nullptr;
    c.file = nullptr;
}

// a locale with grouping and a decimal comma
class Punct : public std::numpunct<char>
{
protected:
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3"; }
};
static std::locale *foreign;

// ------------------------------------------------------------------ what is printed
enum { MaxElems = 160, ObjBytes = 1024 };
struct Elems {
    int n;
    alignas(8) char e[MaxElems * 8];
    bool b[MaxElems];
};
struct Object {
    int kind;
    alignas(64) char before[64];
    alignas(64) char mem[ObjBytes];
    char after[64];
    Elems el;
    unsigned char copy[ObjBytes];
};
static Object objects[MaxOps];
typedef void (*Ref)(Text &, const Elems &, std::ostream &);
struct Kind {
    std::string name;
    size_t bytes;
    void (*make)(void *, Elems &, Rng &);
    void (*unmake)(void *);
    bool (*print)(std::ostream &, const void *);                                             // returned the stream?
    void (*redirect)(std::ostream &, const void *, const void *, std::streambuf *, int *);   // print, redirect, print
    Ref ref;
};

template <class T> static T value(Rng &r)
{
    switch (r.below(5)) {
    case 0: return T(r.below(10));
    case 1: return std::is_floating_point<T>::value ? T(1e22) : std::numeric_limits<T>::max();
    case 2: return std::is_floating_point<T>::value ? T(-7e21) : std::numeric_limits<T>::lowest();
    default: break;
    }
    if (std::is_floating_point<T>::value) {
        static const double some[] = {0.5, -1.25, 1e10, -3.75e-5, 123456.789, 1. / 3, -0.0};
        switch (r.below(12)) {
        case 0: return std::numeric_limits<T>::infinity();
        case 1: return std::numeric_limits<T>::quiet_NaN();
        case 2: return -std::numeric_limits<T>::infinity();
        }
        return T(some[r.below(7)]);
    }
    return T(r.next());
}
// one element, as the stream formats it
template <class T> static void insertOne(Text &t, std::ostream &fmt, const T &x)
{
    std::ostringstream o;
    o.copyfmt(fmt);
    o.exceptions(std::ios::goodbit);
    o.unsetf(std::ios::unitbuf);
    o.width(0);
    o << x;
    const std::string s = o.str();
    t.add(s.data(), s.size());
}
template <class T> static T elem(const Elems &e, int i)
{
    T x;
    memcpy(&x, e.e + sizeof(T) * size_t(i), sizeof(T));
    return x;
}
template <class T> static void vecText(Text &t, const Elems &e, int from, int n, std::ostream &fmt)
{
    t.add("[");
    for (int i = 0; i < n; ++i) {
        if (i) t.add(", ");
        insertOne(t, fmt, elem<T>(e, from + i));
    }
    t.add("]");
}
template <class X> NOINLINE bool printOne(std::ostream &os, const X &x) { return &(os << x) == &os; }
template <class X> NOINLINE void printTwo(std::ostream &os, const X &x, const X &y, std::streambuf *other, int *at)
{
    *at = 0;
    os << x;
    *at = 1;
    os.rdbuf(other);      // clears the state
    *at = 2;
    os << y;
    *at = 3;
}
template <class X> struct Base {
    static bool print(std::ostream &os, const void *p) { return printOne(os, *static_cast<const X *>(p)); }
    static void redirect(std::ostream &os, const void *a, const void *b, std::streambuf *o, int *at)
    {
        printTwo(os, *static_cast<const X *>(a), *static_cast<const X *>(b), o, at);
    }
    static void unmake(void *p) { static_cast<X *>(p)->~X(); }
};
template <class V> struct VecKind : Base<V> {
    typedef typename V::EntryType T;
    static void make(void *p, Elems &e, Rng &r)
    {
        T x[V::Size];
        for (size_t i = 0; i < V::Size; ++i) x[i] = value<T>(r);
        memcpy(e.e, x, sizeof(x));
        e.n = int(V::Size);
        new (p) V(x, Vc::Unaligned);
    }
    static void ref(Text &t, const Elems &e, std::ostream &fmt) { vecText<T>(t, e, 0, e.n, fmt); }
    static void arrayRef(Text &t, const Elems &e, std::ostream &fmt)
    {
        t.add("<");
        for (int i = 0; i < e.n; ++i) {
            if (i) t.add(i % 4 ? " " : " | ");
            insertOne(t, fmt, elem<T>(e, i));
        }
        t.add(">");
    }
    static Kind kind(const std::string &name, bool array = false)
    {
        return {name, sizeof(V), make, Base<V>::unmake, Base<V>::print, Base<V>::redirect, array ? Ref(arrayRef) : Ref(ref)};
    }
};
template <class M_> struct MaskKind : Base<M_> {
    typedef M_ M;
    static void make(void *p, Elems &e, Rng &r)
    {
        const uint64_t bits = r.below(4) ? r.next() : r.below(2) ? 0 : ~0ull;
        e.n = int(M::Size);
        for (int i = 0; i < e.n; ++i) e.b[i] = bits >> (i % 64) & 1;
        M m(false);
        for (int i = 0; i < e.n; ++i) m[size_t(i)] = e.b[i];
        new (p) M(m);
    }
    template <bool Array> static void ref(Text &t, const Elems &e, std::ostream &)
    {
        t.add(Array ? "\u00ab" : "m[");
        for (int i = 0; i < e.n; ++i) {
            if (i && i % 4 == 0) t.add(" ");
            t.add(e.b[i] ? "1" : "0");
        }
        t.add(Array ? "\u00bb" : "]");
    }
    static Kind kind(const std::string &name, bool array = false)
    {
        return {name, sizeof(M), make, Base<M>::unmake, Base<M>::print, Base<M>::redirect,
                array ? Ref(ref<true>) : Ref(ref<false>)};
    }
};
template <class V, class M, int Rows, bool D = false> struct MemKind : Base<M> {
    typedef typename V::EntryType T;
    template <class Q> static NOINLINE Q *create(void *p, size_t, std::false_type) { return new (p) Q; }
    template <class Q> static NOINLINE Q *create(void *p, size_t n, std::true_type) { return new (p) Q(n); }
    static void fill(void *p, Elems &e, Rng &r)
    {
        const size_t n = D ? 1 + r.below(2 * V::Size + 2) : 0;
        M &m = *create<M>(p, n, std::integral_constant<bool, D>());
        T x[V::Size];
        e.n = 0;
        const int vecs = int(m.vectorsCount());
        for (int k = 0; k < vecs; ++k) {
            for (size_t i = 0; i < V::Size; ++i) {
                x[i] = value<T>(r);
                memcpy(e.e + sizeof(T) * size_t(e.n++), &x[i], sizeof(T));
            }
            const V v(x, Vc::Unaligned);
            store(m, k, v);
        }
    }
    template <class Q> static NOINLINE typename std::enable_if<Rows == 1, Q>::type store(M &m, int k, const Q &v)
    {
        m.vector(size_t(k)) = v;
        return v;
    }
    template <class Q> static NOINLINE typename std::enable_if<Rows != 1, Q>::type store(M &m, int k, const Q &v)
    {
        const size_t per = m.vectorsCount() / Rows;
        m[size_t(k) / per].vector(size_t(k) % per) = v;
        return v;
    }
    static void ref(Text &t, const Elems &e, std::ostream &fmt)
    {
        t.add("{");
        const int per = e.n / Rows;
        for (int row = 0; row < Rows; ++row) {
            if (row) t.add("\n ");
            for (int i = 0; i < per; i += int(V::Size)) {
                if (Vc::Traits::isSimdArray<V>::value) {
                    Elems part;
                    part.n = int(V::Size);
                    memcpy(part.e, e.e + sizeof(T) * size_t(row * per + i), sizeof(T) * V::Size);
                    VecKind<V>::arrayRef(t, part, fmt);
                } else {
                    vecText<T>(t, e, row * per + i, int(V::Size), fmt);
                }
            }
        }
        t.add("}");
    }
    static Kind kind(const char *n)
    {
        return {std::string("Memory<") + VName<V>::get() + n + ">", sizeof(M), fill, Base<M>::unmake, Base<M>::print,
                Base<M>::redirect, ref};
    }
};
template <class V, size_t N> struct Static : MemKind<V, Vc::Memory<V, N>, 1> {
};
template <class V> struct Dynamic : MemKind<V, Vc::Memory<V>, 1, true> {
};
template <class V, size_t R, size_t C> struct TwoD : MemKind<V, Vc::Memory<V, R, C>, int(R)> {
};

static Kind kinds[64];
static int nKinds;
static void add(const Kind &k)
{
    if (k.bytes > ObjBytes) __builtin_trap();
    kinds[nKinds++] = k;
}
template <class V> static void addVec()
{
    add(VecKind<V>::kind(VName<V>::get()));
    add(MaskKind<typename V::Mask>::kind(VName<V>::get() + "::Mask"));
}
template <class T, int N> static void addArray()
{
    typedef Vc::SimdArray<T, N> A;
    typedef Vc::Vector<T, Vc::simd_abi::fixed_size<N>> F;
    const std::string n = VName<A>::get(), args = n.substr(n.find('<'));
    add(VecKind<A>::kind(n, true));
    add(VecKind<F>::kind("fixed_size_simd" + args));
    add(MaskKind<Vc::SimdMaskArray<T, N>>::kind("SimdMaskArray" + args, true));
    add(MaskKind<Vc::Mask<T, Vc::simd_abi::fixed_size<N>>>::kind("fixed_size_mask" + args));
}
static void makeKinds()
{
#if PART == 0
    addVec<Vc::float_v>();
    addVec<Vc::double_v>();
    addVec<Vc::int_v>();
    addVec<Vc::uint_v>();
    addVec<Vc::short_v>();
    addVec<Vc::ushort_v>();
#ifdef Vc_IMPL_AVX
    addVec<Vc::SSE::float_v>();
    addVec<Vc::SSE::short_v>();
    addVec<Vc::SSE::double_v>();
#endif
#ifndef Vc_IMPL_Scalar
    addVec<Vc::Scalar::int_v>();
    addVec<Vc::Scalar::double_v>();
#endif
    add(Static<Vc::float_v, 11>::kind(",11"));
    add(Static<Vc::short_v, 1>::kind(",1"));
    add(Dynamic<Vc::int_v>::kind(", dynamic"));
    add(TwoD<Vc::double_v, 3, 5>::kind(",3,5"));
    add(TwoD<Vc::ushort_v, 2, 16>::kind(",2,16"));
#else
    addArray<float, 3>();
    addArray<double, 7>();
    addArray<int, 8>();
    addArray<unsigned, 17>();
    addArray<short, 12>();
    addArray<unsigned short, 33>();
    addArray<float, 1>();
    add(Static<Vc::SimdArray<float, 16>, 13>::kind(",13"));
    add(Dynamic<Vc::uint_v>::kind(", dynamic"));
    add(TwoD<Vc::float_v, 2, 9>::kind(",2,9"));
#endif
}

// ------------------------------------------------------------------ running
static Plan *P0;
enum { OPrint, ORedirect, NOps };
static const char *const opNames[NOps] = {"operator<<", "operator<< and redirect"};

static Text want, got, stripped;
// removes complete colour codes, and an incomplete one at the end
static bool strip(const Text &in, Text &out, int &codes, bool &endsNormal)
{
    out.n = 0;
    codes = 0;
    endsNormal = true;
    for (size_t i = 0; i < in.n; ++i) {
        if (in.c[i] != '\033') {
            out.add(in.c + i, 1);
            continue;
        }
        const size_t start = i++;
        if (i == in.n) return true;
        if (in.c[i] != '[') return false;
        for (++i; i < in.n && (in.c[i] == ';' || (in.c[i] >= '0' && in.c[i] <= '9')); ++i) {
        }
        if (i == in.n) return true;
        if (in.c[i] != 'm') return false;
        ++codes;
        endsNormal = i - start == 3 && in.c[start + 2] == '0';
    }
    return true;
}
struct Settings {
    std::ios::fmtflags flags;
    std::streamsize precision;
    char fill;
    std::ios::iostate exceptions;
    std::ostream *tie;
    long word;
    bool foreign;
};
static int xword;
static Settings settingsOf(std::ostream &o)
{
    Settings s = {o.flags(), o.precision(), o.fill(), o.exceptions(), o.tie(), o.iword(xword), o.getloc() == *foreign};
    return s;
}
static void sameSettings(const Settings &a, const Settings &b)
{
    if (a.flags != b.flags) fail("settings-changed", "printing changed the format flags from 0x%x to 0x%x", unsigned(a.flags), unsigned(b.flags));
    if (a.precision != b.precision) fail("settings-changed", "printing changed the precision from %ld to %ld", long(a.precision), long(b.precision));
    if (a.fill != b.fill) fail("settings-changed", "printing changed the fill character");
    if (a.exceptions != b.exceptions) fail("settings-changed", "printing changed the exception mask from %d to %d", int(a.exceptions), int(b.exceptions));
    if (a.tie != b.tie || a.word != b.word || a.foreign != b.foreign) fail("settings-changed", "printing changed the tied stream, locale or user data");
}
static void checkObject(const Object &o)
{
    const Kind &k = kinds[o.kind];
    for (int i = 0; i < 64; ++i) {
        if (o.before[i] != 'B' || o.after[i] != 'A') fail("wrote-elsewhere", "printing %s wrote outside of it", k.name.c_str());
    }
    if (memcmp(o.mem, o.copy, ObjBytes)) fail("object-changed", "printing %s changed it", k.name.c_str());
}
struct Before {
    size_t n;            // characters that had arrived
    size_t waiting;
    long refused;
    long syncFail;
    std::ios::iostate state;
};
static size_t waiting(const Chan &c) { return c.kind == BBuffered ? reinterpret_cast<const Buffered *>(c.mem)->pending() : 0; }
static Before snapshot(const Chan &c, std::ostream &o)
{
    Before b = {c.sink.text.n, waiting(c), c.sink.refused, c.sink.syncFail, o.rdstate()};
    return b;
}
// what became of one object printed to c
// threw: 0 no, 1 ios_base::failure, 2 the stream buffer's own
static void judge(const Chan &c, std::ostream &os, const Before &b, std::ios::iostate after, const Object &obj, long width, int threw, bool hung)
{
    const Kind &k = kinds[obj.kind];
    const bool faulty = c.sink.refused != b.refused;
    const bool broken = b.state != std::ios::goodbit;
    got.n = 0;
    got.add(c.sink.text.c + b.n, c.sink.text.n - b.n);
    if (c.kind == BBuffered) {
        const Buffered *bb = reinterpret_cast<const Buffered *>(c.mem);
        got.add(bb->waiting(), bb->pending());
    }
    const std::ios::iostate ex = os.exceptions();
    if (broken) {
        cBroken++;
        if (got.n != b.waiting) fail("printed-to-broken-stream", "%s: %zu characters went to a stream in state %d", k.name.c_str(), got.n - b.waiting, int(b.state));
        if ((b.state & ~after) != 0) fail("state-cleared", "%s: the stream state %d became %d", k.name.c_str(), int(b.state), int(after));
        return;
    }
    if (b.waiting) {      // characters of earlier output that were waiting come first
        if (got.n < b.waiting && !faulty) fail("lost-output", "%s: earlier output was dropped", k.name.c_str());
        const size_t skip = got.n < b.waiting ? got.n : b.waiting;
        memmove(got.c, got.c + skip, got.n - skip);
        got.n -= skip;
    }
    want.n = 0;
    k.ref(want, obj.el, os);
    int codes = 0;
    bool normal = true;
    if (c.kind == BTerminal) {
        if (!strip(got, stripped, codes, normal)) fail("wrong-colour-code", "%s: malformed colour code", k.name.c_str());
    } else {
        stripped.n = 0;
        stripped.add(got.c, got.n);
    }
    if (width > 0) {      // padding goes somewhere
        size_t n = 0;
        for (size_t i = 0; i < stripped.n; ++i) {
            if (stripped.c[i] != '~') stripped.c[n++] = stripped.c[i];
        }
        stripped.n = n;
    }
    if (stripped.n < MaxText) stripped.c[stripped.n] = 0;
    if (want.n < MaxText) want.c[want.n] = 0;
    const size_t n = stripped.n < want.n ? stripped.n : want.n;
    if (memcmp(stripped.c, want.c, n) != 0 || stripped.n > want.n) {
        fail("wrong-text", "%s: \"%.200s\" instead of \"%.200s\"", k.name.c_str(), stripped.c, want.c);
    }
    if (!faulty) {
        if (threw) fail("unexpected-exception", "%s: exception without a failure of the stream", k.name.c_str());
        if (stripped.n != want.n) fail("text-incomplete", "%s: \"%.200s\" instead of \"%.200s\"", k.name.c_str(), stripped.c, want.c);
        if (after != std::ios::goodbit) fail("state-changed", "%s: stream state %d after complete output", k.name.c_str(), int(after));
        if (c.kind == BTerminal && !hung) {
            cTty++;
            if (!codes) fail("no-colour", "%s printed to a terminal without colour", k.name.c_str());
            if (!normal) fail("colour-left-on", "%s left the terminal coloured", k.name.c_str());
        }
    } else {
        if (!(after & std::ios::badbit)) fail("failure-not-reported", "%s: stream state %d after a failure", k.name.c_str(), int(after));
        if (threw) cExc++;
        if ((ex & std::ios::badbit) && !threw) fail("exception-lost", "%s: the stream failed, but the exception did not arrive", k.name.c_str());
        if (!(ex & (std::ios::badbit | std::ios::failbit)) && threw) fail("unexpected-exception", "%s: exceptions were off", k.name.c_str());
    }
}

static int lastFault[MaxThreads];
static void one(int tid, int index)
{
    NoYield ny;
    Live live{ny};
    const Op &o = P0->ops[index];
    countOp(o.op);
    Rng r(o.seed);
    const Object &obj = objects[o.a[1]];
    const Kind &k = kinds[obj.kind];
    context(k.name.c_str());
    Chan &c = chans[2 * tid];
    std::ostream &os = *streams[tid];
    if (o.a[1] != index) cShared++;

    // formatting
    os.exceptions(std::ios::goodbit);
    os.clear(c.buf ? std::ios::goodbit : std::ios::badbit);
    long width = 0;
    if (r.below(2)) {
        cFmt++;
        static const std::ios::fmtflags bases[] = {std::ios::dec, std::ios::hex, std::ios::oct};
        static const std::ios::fmtflags floats[] = {std::ios::fmtflags(0), std::ios::fixed, std::ios::scientific, std::ios::fixed | std::ios::scientific};
        static const std::ios::fmtflags adjust[] = {std::ios::left, std::ios::right, std::ios::internal, std::ios::fmtflags(0)};
        os.setf(bases[r.below(3)], std::ios::basefield);
        os.setf(floats[r.below(4)], std::ios::floatfield);
        os.setf(adjust[r.below(4)], std::ios::adjustfield);
        const std::ios::fmtflags bits[] = {std::ios::showbase, std::ios::showpoint, std::ios::showpos, std::ios::uppercase, std::ios::boolalpha,
                                           std::ios::unitbuf, std::ios::skipws};
        for (std::ios::fmtflags f : bits) {
            if (r.below(3) == 0) os.setf(f);
            else os.unsetf(f);
        }
        static const int precs[] = {0, 1, 3, 6, 12, 20};
        os.precision(precs[r.below(6)]);
        os.fill('~');
        if (r.below(4) == 0) width = r.range(1, 30);
        if (r.below(3) == 0) os.imbue(*foreign);
        os.iword(xword) = long(r.below(100));
    }
    // faults
    long failIn = -1;
    for (int i = 0; i < P0->nfaults; ++i) {
        const Fault &f = P0->faults[i];
        if (f.at / 1000 != index) continue;
        if (f.kind < 4) {
            failIn = f.at % 1000;
            c.sink.mode = f.kind;
        } else if (f.kind == 4) {
            c.sink.syncFail = 1 + f.arg;
        } else if (f.kind == 5) {
            if (c.buf) os.clear(std::ios::iostate(1 + f.arg % 7));
        } else if (f.kind == 6) {
            c.answers = int(f.arg % 5);
            cHang++;
        }
    }
    c.sink.limit = failIn;
    static const std::ios::iostate masks[] = {std::ios::goodbit, std::ios::badbit, std::ios::failbit, std::ios::badbit | std::ios::failbit};
    // setting it on a broken stream would throw at once; flushes after each character (unitbuf) happen in a destructor
    if (os.good() && !(os.flags() & std::ios::unitbuf)) os.exceptions(masks[r.below(4)]);
    if (!c.buf) cNoBuf++;
    if (c.file) cFile++;
    os.width(width);
    const Settings s = settingsOf(os);
    const Before b = snapshot(c, os);
    const bool hung = c.answers >= 0;
    int threw = 0;
    cPrint++;
    if (o.op == OPrint) {
        bool chained = true;
        live([&] {
            try {
                chained = k.print(os, obj.mem);
            } catch (std::ios_base::failure &) {
                threw = 1;
            } catch (Bomb &) {
                threw = 2;
            }
        });
        const std::ios::iostate after = os.rdstate();
        if (!chained) fail("not-chained", "%s: operator<< returned another stream", k.name.c_str());
        if (os.rdbuf() != c.buf) fail("settings-changed", "%s: printing replaced the stream buffer", k.name.c_str());
        judge(c, os, b, after, obj, width, threw, hung);
        if (b.state == std::ios::goodbit && c.sink.refused == b.refused && os.width() != 0) fail("settings-changed", "%s: width is %ld afterwards", k.name.c_str(), long(os.width()));
    } else {
        cRedirect++;
        Chan &d = chans[2 * tid + 1];
        int at = 0;
        Before e = snapshot(d, os);
        e.state = d.buf ? std::ios::goodbit : std::ios::badbit;
        const Object &second = objects[o.a[2]];
        std::ios::iostate mid = std::ios::goodbit;
        os.exceptions(std::ios::goodbit);               // the first half may fail; the second is printed all the same
        const Settings s2 = settingsOf(os);
        d.sink.limit = -1;
        (void)mid;
        live([&] {
            try {
                k.redirect(os, obj.mem, second.mem, d.buf, &at);
            } catch (...) {
                threw = 1;
            }
        });
        if (threw) fail("unexpected-exception", "%s: exceptions were off", k.name.c_str());
        const std::ios::iostate after = os.rdstate();
        if (os.rdbuf() != d.buf) fail("settings-changed", "%s: printing replaced the stream buffer", k.name.c_str());
        // the state after the first half is gone; what can be judged of it is the text
        const bool faulty = c.sink.refused != b.refused;
        judge(c, os, b, b.state | (faulty ? std::ios::badbit : std::ios::goodbit) | (b.state != std::ios::goodbit ? std::ios::failbit : std::ios::goodbit), obj, width, 0, hung);
        judge(d, os, e, after, second, faulty || b.state != std::ios::goodbit ? width : 0, 0, d.answers >= 0);
        sameSettings(s2, settingsOf(os));
        checkObject(second);
        os.rdbuf(c.buf);
        if (os.width() != 0 && b.state == std::ios::goodbit && !faulty) fail("settings-changed", "%s: width is %ld afterwards", k.name.c_str(), long(os.width()));
        os.exceptions(s.exceptions & std::ios::goodbit);
        checkObject(obj);
        c.sink.syncFail = 0;
        c.answers = -1;
        return;
    }
    sameSettings(s, settingsOf(os));
    checkObject(obj);
    c.sink.syncFail = 0;
    c.answers = -1;
    note(hashBytes(got.c, got.n));
}
static void body(int tid, void *)
{
    NoYield ny;
    Live live{ny};
    for (int i = 0; i < P0->nops; ++i) {
        if (P0->ops[i].thread == tid) {
            live([&] { one(tid, i); });
        }
    }
}
static void run(Plan &p)
{
    NoYield ny;
    Live live{ny};
    P0 = &p;
    context("preparing");
    isattyHook = myIsatty;
    filenoHook = myFileno;
    Rng r(uint64_t(p.cfg[0]));
    for (int t = 0; t < p.nthreads; ++t) {
        openChan(2 * t, int(p.cfg[1 + 2 * t]), r);
        openChan(2 * t + 1, int(p.cfg[2 + 2 * t]), r);
        streams[t] = new (streamMem[t]) std::ostream(chans[2 * t].buf);
    }
    for (int i = 0; i < p.nops; ++i) {
        Object &o = objects[i];
        o.kind = int(p.ops[i].a[0]) % nKinds;
        memset(o.before, 'B', sizeof(o.before));
        memset(o.after, 'A', sizeof(o.after));
        memset(o.mem, 'M', sizeof(o.mem));
        Rng q(p.ops[i].seed ^ 0x1234);
        kinds[o.kind].make(o.mem, o.el, q);
        memcpy(o.copy, o.mem, ObjBytes);
    }
    // operations that share an object, or print one of the same kind
    for (int i = 0; i < p.nops; ++i) {
        Op &o = p.ops[i];
        if (o.a[1] < 0 || o.a[1] >= p.nops) o.a[1] = i;
        if (o.a[2] < 0 || o.a[2] >= p.nops || objects[o.a[2]].kind != objects[o.a[1]].kind) o.a[2] = o.a[1];
    }
    setStepCap(4000000);
    live([&] { parallel(p.nthreads, body, nullptr); });
    context("cleaning up");
    for (int i = 0; i < p.nops; ++i) kinds[objects[i].kind].unmake(objects[i].mem);
    for (int t = 0; t < p.nthreads; ++t) {
        streams[t]->~basic_ostream();
        closeChan(2 * t);
        closeChan(2 * t + 1);
    }
    isattyHook = nullptr;
    filenoHook = nullptr;
}
static void generate(Rng &r, Plan &p)
{
    p.cfg[0] = long(r.next());
    p.nthreads = int(r.below(3) == 0 ? 1 : r.range(2, 3));
    for (int t = 0; t < p.nthreads; ++t) {
        p.cfg[1 + 2 * t] = long(r.below(10) ? r.below(BNull) : BNull);
        p.cfg[2 + 2 * t] = long(r.below(20) ? r.below(BNull) : BNull);
    }
    const int n = int(r.range(p.nthreads, 8));
    for (int i = 0; i < n; ++i) {
        const int t = i < p.nthreads ? i : int(r.below(uint64_t(p.nthreads)));
        const int share = i && r.below(3) == 0 ? int(r.below(uint64_t(i))) : i;
        p.add(t, r.below(3) ? OPrint : ORedirect, r.next(), long(r.below(1000)), share, r.below(2) ? long(r.below(uint64_t(n))) : share);
        const int what = int(r.below(10));
        if (what < 4) p.fault(int(r.below(4)), i * 1000 + long(r.below(4) ? r.below(40) : r.below(200)));
        else if (what == 4) p.fault(4, i * 1000, long(r.below(8)));
        else if (what == 5) p.fault(5, i * 1000, long(r.below(100)));
        else if (what == 6) p.fault(6, i * 1000, long(r.below(100)));
    }
    choosePolicy(r, p, 300 * p.nthreads);
}
static void setup()
{
    makeKinds();
    foreign = new std::locale(std::locale::classic(), new Punct);
    xword = std::ios_base::xalloc();
    // locale caches and the like are filled before the runs
    Text *t = new Text;
    std::ostringstream o;
    t->n = 0;
    insertOne(*t, o, 1.5);
    o.imbue(*foreign);
    insertOne(*t, o, 1.5);
    insertOne(*t, o, 12345);
    delete t;
}
static const char *opName(int i) { return opNames[i]; }
Workload sim::workload()
{
    return {"C08", setup, generate, run, opName, ""};
}
