// C07  CPU detection on simulated processors and operating systems, first used by several
// threads at once. The oracle is an independent decoder of the simulated identification data.
#define Vc_COMPILE_LIB   // no initialisation before main: the simulated program starts cold
#include <Vc/cpuid.h>
#include <utility>
#include <Vc/support.h>
#include <Vc/global.h>
#include "../sim/sim.h"
#include <cstdio>
#include <cstring>

using namespace sim;
using Vc::CpuId;

static const Counter cIntel("intel_cpus"), cAmd("amd_cpus"), cOtherVendor("other_vendors"), cNoLeaf7("cpus_without_leaf_7"),
    cNoExt("cpus_without_extended_leaves"), cNoOs("avx_cpus_whose_os_does_not_save_avx_state"), cNoOsxsave("cpus_without_osxsave"),
    cJunk("cpus_that_answer_missing_leaves_with_junk"), cLeaf2("caches_by_descriptor"), cRepeat("descriptors_in_two_parts"), cLeaf4("caches_by_leaf_4"),
    cAgain("initialised_again"), cRace("runs_with_racing_first_use"), cFull("complete_comparisons"), cLimited("cpus_with_limited_leaves");

enum { OInit, OImpl, OBest, OExtra, OQueries, OTyped, NOps };
static const char *const opNames[NOps] = {"CpuId::init", "isImplementationSupported", "bestImplementationSupported", "extraInstructionsSupported",
                                          "CpuId queries", "isImplementationSupported<Current>"};
static Plan *P0;
static CpuModel model;

// ------------------------------------------------------------------ simulated processors
struct Desc {
    unsigned char byte;
    int what;           // 1: L1i 2: L1d 3: L2 4: L3 5: prefetch
    unsigned kb, line, ways;
};
// Intel SDM vol. 2, CPUID leaf 2
static const Desc descs[] = {
    {0x06, 1, 8, 32, 4},      {0x08, 1, 16, 32, 4},     {0x09, 1, 32, 64, 4},     {0x30, 1, 32, 64, 8},     {0x0A, 2, 8, 32, 2},
    {0x0C, 2, 16, 32, 4},     {0x0D, 2, 16, 64, 4},     {0x0E, 2, 24, 64, 6},     {0x2C, 2, 32, 64, 8},     {0x60, 2, 16, 64, 8},
    {0x66, 2, 8, 64, 4},      {0x67, 2, 16, 64, 4},     {0x68, 2, 32, 64, 4},     {0x1D, 3, 128, 64, 2},    {0x21, 3, 256, 64, 8},    {0x24, 3, 1024, 64, 16},    {0x41, 3, 128, 32, 4},
    {0x42, 3, 256, 32, 4},    {0x43, 3, 512, 32, 4},    {0x44, 3, 1024, 32, 4},   {0x45, 3, 2048, 32, 4},   {0x48, 3, 3072, 64, 12},
    {0x4E, 3, 6144, 64, 24},  {0x78, 3, 1024, 64, 4},   {0x79, 3, 128, 64, 8},    {0x7A, 3, 256, 64, 8},    {0x7B, 3, 512, 64, 8},
    {0x7C, 3, 1024, 64, 8},   {0x7D, 3, 2048, 64, 8},   {0x7F, 3, 512, 64, 2},    {0x80, 3, 512, 64, 8},    {0x82, 3, 256, 32, 8},
    {0x83, 3, 512, 32, 8},    {0x84, 3, 1024, 32, 8},   {0x85, 3, 2048, 32, 8},   {0x86, 3, 512, 64, 4},    {0x87, 3, 1024, 64, 8},
    {0x22, 4, 512, 64, 4},    {0x23, 4, 1024, 64, 8},   {0x25, 4, 2048, 64, 8},   {0x29, 4, 4096, 64, 8},   {0x46, 4, 4096, 64, 4},
    {0x47, 4, 8192, 64, 8},   {0x4A, 4, 6144, 64, 12},  {0x4B, 4, 8192, 64, 16},  {0x4C, 4, 12288, 64, 12}, {0x4D, 4, 16384, 64, 16},
    {0xD0, 4, 512, 64, 4},    {0xD1, 4, 1024, 64, 4},   {0xD2, 4, 2048, 64, 4},   {0xD6, 4, 1024, 64, 8},   {0xD7, 4, 2048, 64, 8},
    {0xD8, 4, 4096, 64, 8},   {0xDC, 4, 1536, 64, 12},  {0xDD, 4, 3072, 64, 12},  {0xDE, 4, 6144, 64, 12},  {0xE2, 4, 2048, 64, 16},
    {0xE3, 4, 4096, 64, 16},  {0xE4, 4, 8192, 64, 16},  {0xEA, 4, 12288, 64, 24}, {0xEB, 4, 18432, 64, 24}, {0xEC, 4, 24576, 64, 24},
    {0xF0, 5, 64, 0, 0},      {0xF1, 5, 128, 0, 0}};
enum { NDescs = sizeof(descs) / sizeof(descs[0]) };

struct Cache {
    unsigned size, line, ways;
};
struct Expected {
    unsigned family, model, type, logical, clflush;
    bool amd, intel;
    unsigned c, d, b7, c7, c8, d8;
    Cache l1i, l1d, l2, l3;
    bool waysKnown;
    unsigned prefetch;
    bool prefetchKnown;
    bool ymm;            // the operating system saves the wide registers
    bool impl[9];
    int best;
    unsigned extra;
};
static Expected X;

static const unsigned char fillers[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x4F, 0x50, 0x5B, 0xB0, 0xB3, 0xCA};   // TLBs and the like
static void makeCpu(Rng &r)
{
    memset(&model, 0, sizeof(model));
    memset(&X, 0, sizeof(X));
    CpuModel &m = model;
    const int vendor = int(r.below(10));   // 0-4 Intel, 5-8 AMD, 9 other
    X.intel = vendor < 5;
    X.amd = vendor >= 5 && vendor < 9;
    static const char *const ids[] = {"GenuineIntel", "AuthenticAMD", "CentaurHauls", "HygonGenuine"};
    memcpy(m.vendor, X.intel ? ids[0] : X.amd ? ids[1] : ids[2 + r.below(2)], 12);
    m.junk = X.amd || r.below(3) == 0 ? 0 : r.next() | 1;

    // ---- what the processor can do: a consistent ladder
    const int ladder = int(r.below(9));    // 0: SSE2 .. 5: SSE4.2, 6: AVX, 7: AVX2, 8: AVX-512
    const int oldest = r.below(30) == 0;   // no SSE2
    uint32_t c = 0, d = uint32_t(r.next()), b7 = 0, c7 = 0, c8 = 0, d8 = uint32_t(r.next());
    // bits that mean nothing here are random; those that have a meaning follow the ladder
    c = uint32_t(r.next());
    const uint32_t ladderC = 1u << 0 | 1u << 9 | 1u << 12 | 1u << 19 | 1u << 20 | 1u << 23 | 1u << 26 | 1u << 27 | 1u << 28 | 1u << 29;
    c &= ~ladderC;
    d |= 1u << 25 | 1u << 26;
    if (oldest) d &= ~(1u << 26);
    const int lv = oldest ? 0 : ladder;
    if (lv >= 1) c |= 1u << 0;                     // SSE3
    if (lv >= 2) c |= 1u << 9;                     // SSSE3
    if (lv >= 3) c |= 1u << 19;                    // SSE4.1
    if (lv >= 4) c |= 1u << 20;                    // SSE4.2
    if (lv >= 4 && r.below(5)) c |= 1u << 23;      // POPCNT
    if (lv >= 6) c |= 1u << 28;                    // AVX
    if (lv >= 6 && r.below(4)) c |= 1u << 29;      // F16C
    if (lv >= 6 && r.below(4)) c |= 1u << 12;      // FMA
    b7 = uint32_t(r.next()) & ~(1u << 5 | 0xF0000000u | 0x00270000u | 1u << 8 | 1u << 3);
    if (r.below(2)) b7 |= 1u << 3;
    if (lv >= 7 || (lv >= 4 && r.below(6) == 0)) b7 |= 1u << 8;   // BMI2
    if (lv >= 7) b7 |= 1u << 5;                    // AVX2
    if (lv >= 8) b7 |= uint32_t(r.next()) & 0xF0270000u;
    c7 = lv >= 8 ? uint32_t(r.next()) : 0;
    c8 = uint32_t(r.next()) & ~(1u << 6 | 1u << 11 | 1u << 16);
    if (X.amd) {
        if (lv >= 1 && r.below(2)) c8 |= 1u << 6;  // SSE4a
        if (lv >= 6 && r.below(2)) c8 |= 1u << 11; // XOP
        if (lv >= 6 && r.below(2)) c8 |= 1u << 16; // FMA4
    }
    // ---- the operating system
    const bool osxsave = lv >= 6 ? r.below(4) != 0 : r.below(6) == 0;
    if (osxsave) c |= 1u << 26 | 1u << 27;
    else if (r.below(2)) c |= 1u << 26;            // the processor could, the system does not
    static const uint64_t xcr[] = {1, 3, 7, 0xe7, 5, 0x1f, 0xff, 0x207};
    m.xcr0 = osxsave ? lv >= 6 ? xcr[r.below(8)] : 3 : 0;
    X.ymm = osxsave && (m.xcr0 & 6) == 6;
    if (lv >= 6 && !X.ymm) cNoOs++;
    if (!osxsave) cNoOsxsave++;

    // ---- which leaves exist
    static const uint32_t leaves[] = {1, 2, 3, 4, 5, 6, 0xA, 0xB, 0xD, 0x14, 0x1F};
    m.maxLeaf = lv >= 6 ? (r.below(5) ? 0xD + uint32_t(r.below(8)) : 0) : 0;
    if (!m.maxLeaf) {
        m.maxLeaf = leaves[r.below(11)];
        if (lv >= 6 && m.maxLeaf < 7) cLimited++;   // limited by the firmware
    }
    const uint32_t exts[] = {0x80000000u, 0x80000001u, 0x80000004u, 0x80000005u, 0x80000006u, 0x80000007u, 0x80000008u, 0x8000001eu};
    m.maxExt = r.below(3) ? exts[6 + r.below(2)] : exts[r.below(8)];
    if (!X.amd && r.below(12) == 0) m.maxExt = m.junk ? uint32_t(r.below(0x1000)) : 0;   // no extended leaves at all
    if (m.maxLeaf < 7) cNoLeaf7++;
    if (m.maxExt < 0x80000001u) cNoExt++;
    if (m.junk) cJunk++;

    // ---- leaf 1
    unsigned fam = X.amd ? (r.below(3) ? 15 : 5 + unsigned(r.below(2))) : r.below(4) ? 6 : r.below(2) ? 15 : 5;
    const unsigned extFam = fam == 15 ? unsigned(r.below(8) == 0 ? r.below(241) : r.below(X.amd ? 12 : 3)) : 0;
    const unsigned mod = unsigned(r.below(16));
    const unsigned extMod = fam == 15 || (fam == 6 && !X.amd) ? unsigned(r.below(16)) : 0;
    const unsigned type = X.intel ? unsigned(r.below(3)) : 0;
    m.l1a = uint32_t(r.below(16)) | mod << 4 | fam << 8 | type << 12 | extMod << 16 | extFam << 20;
    X.family = fam == 15 ? 15 + extFam : fam;
    X.model = mod + (extMod << 4);
    X.type = type;
    X.clflush = r.below(4) ? 8 : r.below(2) ? 4 : r.below(2) ? 16 : 1 + unsigned(r.below(255));
    X.logical = 1 + unsigned(r.below(255));
    m.l1b = uint32_t(r.below(256)) | X.clflush << 8 | X.logical << 16 | uint32_t(r.below(256)) << 24;
    m.l1c = c;
    m.l1d = d;
    m.l7b = b7;
    m.l7c = c7;
    m.l7d = uint32_t(r.next());
    m.e1b = uint32_t(r.next());
    m.e1c = c8;
    m.e1d = d8;
    X.c = c;
    X.d = d;
    X.b7 = m.maxLeaf >= 7 ? b7 : 0;
    X.c7 = m.maxLeaf >= 7 ? c7 : 0;
    X.c8 = m.maxExt >= 0x80000001u ? c8 : 0;
    X.d8 = m.maxExt >= 0x80000001u ? d8 : 0;

    // ---- caches
    X.waysKnown = true;
    X.prefetchKnown = true;
    if (X.amd) {
        cAmd++;
        X.prefetch = X.clflush * 8;
        unsigned line[4] = {r.below(3) ? 64u : 32u, r.below(3) ? 64u : 128u, r.below(3) ? 64u : 16u, r.below(3) ? 64u : 32u};
        if (r.below(8) == 0) line[r.below(4)] = 1 + unsigned(r.below(255));
        const unsigned l1d = 1 + unsigned(r.below(128)), l1i = 1 + unsigned(r.below(128)), ways = 1 + unsigned(r.below(255));
        m.e5[0] = uint32_t(r.next());
        m.e5[1] = uint32_t(r.next());
        m.e5[2] = l1d << 24 | ways << 16 | uint32_t(r.below(256)) << 8 | line[0];
        m.e5[3] = l1i << 24 | uint32_t(r.below(256)) << 16 | uint32_t(r.below(256)) << 8 | line[1];
        static const unsigned code[] = {0, 1, 2, 3, 4, 5, 6, 8, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF};
        static const unsigned meaning[] = {0, 1, 2, 3, 4, 6, 8, 16, 32, 48, 64, 96, 128, 0xff};
        const unsigned w2 = unsigned(r.below(14)), w3 = unsigned(r.below(14));
        const unsigned l2 = 128 * (1 + unsigned(r.below(64))), l3 = unsigned(r.below(2000));
        m.e6[0] = uint32_t(r.next());
        m.e6[1] = uint32_t(r.next());
        m.e6[2] = l2 << 16 | code[w2] << 12 | uint32_t(r.below(16)) << 8 | line[2];
        m.e6[3] = l3 << 18 | uint32_t(r.below(4)) << 16 | code[w3] << 12 | uint32_t(r.below(16)) << 8 | line[3];
        if (m.maxExt >= 0x80000005u) {
            X.l1d = {l1d * 1024, line[0], ways};
            X.l1i = {l1i * 1024, line[1], 0};
        }
        if (m.maxExt >= 0x80000006u) {
            X.l2 = {l2 * 1024, line[2], meaning[w2]};
            X.l3 = {l3 * 512 * 1024, line[3], meaning[w3]};
        }
    } else {
        if (X.intel) cIntel++;
        else cOtherVendor++;
        X.prefetch = 32;
        m.l2n = r.below(6) == 0 ? 2 : 1;
        const int nb = 16 * int(m.l2n);
        if (m.l2n > 1) cRepeat++;
        unsigned char bytes[32];
        for (int i = 0; i < nb; ++i) bytes[i] = fillers[r.below(r.below(2) ? 1 : i % 4 == 3 ? 8 : sizeof(fillers))];
        bytes[0] = static_cast<unsigned char>(m.l2n);
        bytes[16] = static_cast<unsigned char>(m.l2n);
        // the most significant byte of a register has its top bit clear: the register is valid
        bool valid[8] = {true, true, true, true, true, true, true, true};
        for (int i = 1; i < nb / 4; ++i) {
            if (i != 4 && r.below(6) == 0) {
                valid[i] = false;
                for (int k = 0; k < 4; ++k) bytes[4 * i + k] = static_cast<unsigned char>(r.next());
                bytes[4 * i + 3] |= 0x80;
            }
        }
        const bool leaf4 = !X.intel || r.below(2);
        int at[32], n = 0;
        for (int i = 1; i < nb; ++i) {
            if (i % 16 && valid[i / 4]) at[n++] = i;
        }
        for (int i = n - 1; i > 0; --i) {
            const int j = int(r.below(uint64_t(i + 1)));
            const int t = at[i];
            at[i] = at[j];
            at[j] = t;
        }
        int used = 0;
        // the fourth byte of a valid register cannot have bit 7 set
        auto put = [&](unsigned char b) -> bool {
            for (int k = used; k < n; ++k) {
                if (at[k] % 4 == 3 && (b & 0x80)) continue;
                const int t = at[k];
                at[k] = at[used];
                at[used++] = t;
                bytes[t] = b;
                return true;
            }
            return false;
        };
        const bool zeros = leaf4 && r.below(3) == 0;
        if (!leaf4) {
            cLeaf2++;
            for (int what = 1; what <= 5; ++what) {
                if (r.below(5) == 0) continue;
                const Desc *d0 = nullptr;
                do {
                    d0 = &descs[r.below(NDescs)];
                } while (d0->what != what);
                if (!put(d0->byte)) continue;
                if (m.maxLeaf < 2) continue;
                const Cache k = {d0->kb * 1024, d0->line, d0->ways};
                if (what == 1) {
                    X.l1i = k;
                    X.waysKnown = false;   // one number for both level 1 caches
                }
                if (what == 2) X.l1d = k;
                if (what == 3) X.l2 = k;
                if (what == 4) X.l3 = k;
                if (what == 5) X.prefetch = d0->kb;
            }
            if (m.maxLeaf >= 2 && r.below(8) == 0) {
                // at most one descriptor for each level
                const bool asL3 = X.family == 15 && X.model == 6;
                if (X.l2.size == 0 && X.l3.size == 0 && r.below(2)) put(0x40);
                else if ((asL3 ? X.l3.size : X.l2.size) == 0 && put(0x49)) {
                    if (asL3) X.l3 = {4096 * 1024, 64, 16};
                    else X.l2 = {4096 * 1024, 64, 16};
                }
            }
        } else if (!zeros) {
            put(0xFF);
            if (r.below(2) && X.clflush == 8) put(0xF0);
        }
        if (leaf4) {
            cLeaf4++;
            if (zeros) memset(bytes, 0, sizeof(bytes)), m.l2n = 1;
            int k = 0;
            auto cache = [&](Cache &x, unsigned kind, unsigned level) {
                const bool full = r.below(8) == 0;   // fully associative
                const unsigned line = r.below(8) ? 16u << r.below(r.below(4) ? 4 : 9) : 1 + unsigned(r.below(4096)),
                               ways = 1 + unsigned(r.below(full ? 1024 : 32));
                unsigned parts = 1 + unsigned(r.below(r.below(6) ? 3 : 1024));
                unsigned sets = full ? 1 : r.below(4) ? 1u << r.below(level >= 3 ? 16 : 9) : 1 + unsigned(r.below(5000));
                while (uint64_t(ways) * parts * line * sets >> 31) (sets > 1 ? sets : parts) /= 2;
                uint32_t *o = m.l4[k++];
                o[0] = kind | level << 5 | uint32_t(r.below(4)) << 8 | uint32_t(r.below(0x1000)) << 14 | uint32_t(r.below(64)) << 26;
                o[1] = (line - 1) | (parts - 1) << 12 | (ways - 1) << 22;
                o[2] = sets - 1;
                o[3] = uint32_t(r.next());
                if (m.maxLeaf >= 4) x = {ways * parts * line * sets, line, ways};
            };
            const bool split = r.below(5) != 0;
            cache(X.l1d, split ? 1 : 3, 1);
            if (split) {
                cache(X.l1i, 2, 1);
                X.l1i.ways = 0;
            }
            if (r.below(5)) cache(X.l2, r.below(4) ? 3 : 1, 2);
            if (r.below(3)) cache(X.l3, 3, 3);
            Cache other;
            if (r.below(6) == 0) cache(other, 3, 4);
            if (r.below(10) == 0) cache(other, 2, 2);
            if (r.below(4) == 0) {   // in any order
                for (int i = k - 1; i > 0; --i) std::swap(m.l4[i], m.l4[r.below(uint64_t(i + 1))]);
            }
            if (m.maxLeaf >= 4) X.prefetch = X.clflush * 8;
            else X.prefetchKnown = false;
        }
        // registers in the order eax ebx ecx edx
        for (int i = 0; i < 4 * int(m.l2n); ++i) {
            m.l2[i / 4][i % 4] = uint32_t(bytes[4 * i]) | uint32_t(bytes[4 * i + 1]) << 8 | uint32_t(bytes[4 * i + 2]) << 16 | uint32_t(bytes[4 * i + 3]) << 24;
        }
    }

    // ---- conclusions
    const bool avx = (c & 1u << 28) && X.ymm;
    const bool avx2 = avx && (X.b7 & 1u << 5);
    X.impl[0] = true;
    X.impl[1] = d & 1u << 26;
    X.impl[2] = c & 1u << 0;
    X.impl[3] = c & 1u << 9;
    X.impl[4] = c & 1u << 19;
    X.impl[5] = c & 1u << 20;
    X.impl[6] = avx;
    X.impl[7] = avx2;
    X.impl[8] = false;
    X.best = avx2 ? Vc::AVX2Impl : avx ? Vc::AVXImpl : Vc::SSE42Impl;
    if (!X.impl[5]) X.best = Vc::SSE41Impl;
    if (!X.impl[4]) X.best = Vc::SSSE3Impl;
    if (!X.impl[3]) X.best = Vc::SSE3Impl;
    if (!X.impl[2]) X.best = Vc::SSE2Impl;
    if (!X.impl[1]) X.best = Vc::ScalarImpl;
    if (X.ymm) {
        if (c & 1u << 29) X.extra |= Vc::Float16cInstructions;
        if (X.c8 & 1u << 16) X.extra |= Vc::Fma4Instructions;
        if (X.c8 & 1u << 11) X.extra |= Vc::XopInstructions;
        if (c & 1u << 12) X.extra |= Vc::FmaInstructions;
        if (c & 1u << 28) X.extra |= Vc::VexInstructions;
    }
    if (c & 1u << 23) X.extra |= Vc::PopcntInstructions;
    if (X.c8 & 1u << 6) X.extra |= Vc::Sse4aInstructions;
    if (X.b7 & 1u << 8) X.extra |= Vc::Bmi2Instructions;
}

// ------------------------------------------------------------------ comparisons
#define SAME(what, want)                                                                                             \
    do {                                                                                                             \
        const unsigned long got_ = (unsigned long)(CpuId::what()), want_ = (unsigned long)(want);                    \
        if (got_ != want_) fail("wrong-" #what, "CpuId::" #what "() says %lu, the processor says %lu", got_, want_); \
    } while (0)
struct Bit {
    const char *name;
    bool (*get)();
    const unsigned *reg;
    int bit;
};
static const Bit bits[] = {
#define B(n, r, b) {#n, [] { return CpuId::n(); }, &X.r, b}
    B(hasSse3, c, 0), B(hasPclmulqdq, c, 1), B(hasMonitor, c, 3), B(hasVmx, c, 5), B(hasSmx, c, 6), B(hasEist, c, 7), B(hasTm2, c, 8),
    B(hasSsse3, c, 9), B(hasFma, c, 12), B(hasCmpXchg16b, c, 13), B(hasPdcm, c, 15), B(hasDca, c, 18), B(hasSse41, c, 19),
    B(hasSse42, c, 20), B(hasMovbe, c, 22), B(hasPopcnt, c, 23), B(hasAes, c, 25), B(hasOsxsave, c, 27), B(hasAvx, c, 28),
    B(hasF16c, c, 29), B(hasRdrand, c, 30), B(hasBmi1, b7, 3), B(hasHle, b7, 4), B(hasAvx2, b7, 5), B(hasBmi2, b7, 8),
    B(hasRtm, b7, 11), B(hasAvx512f, b7, 16), B(hasAvx512dq, b7, 17), B(hasAvx512ifma, b7, 21), B(hasAvx512pf, b7, 26),
    B(hasAvx512er, b7, 27), B(hasAvx512cd, b7, 28), B(hasAvx512bw, b7, 30), B(hasAvx512vl, b7, 31), B(hasAvx512vbmi, c7, 1),
    B(hasFpu, d, 0), B(hasVme, d, 1), B(hasDe, d, 2), B(hasPse, d, 3), B(hasTsc, d, 4), B(hasMsr, d, 5), B(hasPae, d, 6),
    B(hasCx8, d, 8), B(hasMtrr, d, 12), B(hasCmov, d, 15), B(hasClfsh, d, 19), B(hasAcpi, d, 22), B(hasMmx, d, 23), B(hasSse, d, 25),
    B(hasSse2, d, 26), B(hasHtt, d, 28), B(hasSse4a, c8, 6), B(hasMisAlignSse, c8, 7), B(hasAmdPrefetch, c8, 8), B(hasXop, c8, 11),
    B(hasFma4, c8, 16), B(hasRdtscp, d8, 27), B(has3DNow, d8, 31), B(has3DNowExt, d8, 30)
#undef B
};
static void compareAll()
{
    cFull++;
    for (const Bit &b : bits) {
        if (b.get() != bool(*b.reg >> b.bit & 1)) {
            fail("wrong-feature", "CpuId::%s() says %d, the processor says %d", b.name, int(b.get()), int(*b.reg >> b.bit & 1));
        }
    }
    SAME(isAmd, X.amd);
    SAME(isIntel, X.intel);
    SAME(processorFamily, X.family);
    SAME(processorModel, X.model);
    SAME(processorType, X.type);
    SAME(logicalProcessors, X.logical);
    SAME(cacheLineSize, X.clflush * 8);
    SAME(L1Instruction, X.l1i.size);
    SAME(L1InstructionLineSize, X.l1i.line);
    SAME(L1Data, X.l1d.size);
    SAME(L1DataLineSize, X.l1d.line);
    SAME(L2Data, X.l2.size);
    SAME(L2DataLineSize, X.l2.line);
    SAME(L3Data, X.l3.size);
    SAME(L3DataLineSize, X.l3.line);
    if (X.waysKnown) SAME(L1Associativity, X.l1d.ways);
    SAME(L2Associativity, X.l2.ways);
    SAME(L3Associativity, X.l3.ways);
    if (X.prefetchKnown) SAME(prefetch, X.prefetch);
}
static int initialised[MaxThreads];
static const Vc::Implementation impls[] = {Vc::ScalarImpl, Vc::SSE2Impl, Vc::SSE3Impl, Vc::SSSE3Impl, Vc::SSE41Impl,
                                           Vc::SSE42Impl, Vc::AVXImpl, Vc::AVX2Impl, Vc::MICImpl};
static const char *const implNames[] = {"Scalar", "SSE2", "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "AVX", "AVX2", "MIC"};
static void one(int tid, const Op &o)
{
    NoYield ny;
    Live live{ny};
    countOp(o.op);
    context(opNames[o.op]);
    Rng r(o.seed);
    switch (o.op) {
    case OInit:
        if (initialised[tid]) cAgain++;
        live([&] { CpuId::init(); });
        initialised[tid] = 1;
        break;
    case OImpl: {
        const int i = int(r.below(9));
        bool got = false;
        live([&] { got = Vc::isImplementationSupported(impls[i]); });
        if (got != X.impl[i]) fail("wrong-implementation", "isImplementationSupported(%s) is %d", implNames[i], int(got));
        initialised[tid] = 1;
        break;
    }
    case OBest: {
        int got = 0;
        live([&] { got = int(Vc::bestImplementationSupported()); });
        if (got != X.best) fail("wrong-best", "bestImplementationSupported() is %d, not %d", got, X.best);
        initialised[tid] = 1;
        break;
    }
    case OExtra: {
        unsigned got = 0;
        live([&] { got = Vc::extraInstructionsSupported(); });
        if (got != X.extra) fail("wrong-extra", "extraInstructionsSupported() is 0x%x, not 0x%x", got, X.extra);
        initialised[tid] = 1;
        break;
    }
    case OTyped: {
        typedef Vc::CurrentImplementation Cur;
        bool got = false, want = false;
        for (int i = 0; i < 9; ++i) {
            if (impls[i] == Cur::current()) want = X.impl[i];
        }
        unsigned need = 0;
#ifndef Vc_IMPL_Scalar
#ifdef __F16C__
        need |= Vc::Float16cInstructions;
#endif
#ifdef __FMA__
        need |= Vc::FmaInstructions;
#endif
#ifdef __POPCNT__
        need |= Vc::PopcntInstructions;
#endif
#ifdef __BMI2__
        need |= Vc::Bmi2Instructions;
#endif
#ifdef __AVX__
        need |= Vc::VexInstructions;
#endif
#endif
        want = want && (X.extra & need) == need;
        live([&] { got = Vc::isImplementationSupported<Cur>(); });
        if (got != want) fail("wrong-implementation", "the compiled implementation is %s", got ? "reported supported" : "not reported");
        initialised[tid] = 1;
        break;
    }
    case OQueries:
        if (!initialised[tid]) {
            live([&] { CpuId::init(); });
            initialised[tid] = 1;
        }
        compareAll();
        break;
    }
    if (initialised[tid] && r.below(3) == 0) compareAll();
}
static void body(int tid, void *)
{
    NoYield ny;
    Live live{ny};
    for (int i = 0; i < P0->nops; ++i) {
        if (P0->ops[i].thread == tid) {
            const Op &o = P0->ops[i];
            live([&] { one(tid, o); });
        }
    }
}
static void last(int, void *)
{
    NoYield ny;
    Live live{ny};
    context("afterwards");
    live([&] { CpuId::init(); });
    compareAll();
}
static void run(Plan &p)
{
    NoYield ny;
    Live live{ny};
    P0 = &p;
    memset(initialised, 0, sizeof(initialised));
    Rng r(uint64_t(p.cfg[0]));
    makeCpu(r);
    cpu = &model;
    if (p.nthreads > 1) cRace++;
    setStepCap(200000);
    live([&] { parallel(p.nthreads, body, nullptr); });
    live([&] { parallel(1, last, nullptr); });
    cpu = nullptr;
}
static void generate(Rng &r, Plan &p)
{
    p.cfg[0] = long(r.next());
    p.nthreads = int(r.below(4) == 0 ? 1 : r.range(2, 4));
    const int total = int(r.range(p.nthreads, 9));
    for (int i = 0; i < total; ++i) {
        const int t = i < p.nthreads ? i : int(r.below(uint64_t(p.nthreads)));
        p.add(t, int(r.below(NOps)), r.next());
    }
    choosePolicy(r, p, 60 * p.nthreads);
}
static void setup() {}
static const char *opName(int i) { return opNames[i]; }
Workload sim::workload()
{
    return {"C07", setup, generate, run, opName, ""};
}
