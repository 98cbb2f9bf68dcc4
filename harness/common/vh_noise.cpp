// Schedule noise and edge accounting. Compiled WITHOUT sanitizers and WITHOUT coverage, and
// deliberately free of locked instructions: plain relaxed loads and stores only, so that it
// neither adds happens-before edges nor drains store buffers.
#include "vh.hpp"
#include <sched.h>
#include <time.h>

namespace {
constexpr uint32_t MAXE = 1 << 18;
unsigned char gHit[MAXE];
uint32_t gTotal = 0;
struct Cfg {
    volatile bool on = false;
    volatile int yieldPM = 0, sleepPM = 0, maxUs = 0, stallUs = 0;
    volatile uint64_t seed = 0;
    volatile uint32_t epoch = 0;
    volatile uint32_t stall[8] = {0};
    volatile int nstall = 0;
} gCfg;
volatile uint64_t gSig = 0;
volatile uint32_t gLastThread = 0;
volatile uint32_t gNextThread = 1;
struct Tls {
    uint64_t s;
    uint32_t epoch;
    uint32_t id;
    bool inside, paused;
};
__thread Tls tls __attribute__((tls_model("initial-exec")));
inline uint64_t rnd() {
    tls.s ^= tls.s << 13;
    tls.s ^= tls.s >> 7;
    tls.s ^= tls.s << 17;
    return tls.s;
}
void napUs(long us) {
    timespec ts{us / 1000000, (us % 1000000) * 1000};
    nanosleep(&ts, nullptr);
}
} // namespace

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++gTotal < MAXE ? gTotal : MAXE - 1;
}
static inline void visit(uint32_t g) {
    gHit[g] = 1;
    if (!gCfg.on || tls.inside || tls.paused) return;
    if (tls.epoch != gCfg.epoch) {
        tls.epoch = gCfg.epoch;
        if (!tls.id) tls.id = gNextThread++;
        tls.s = gCfg.seed ^ ((uint64_t) tls.id * 0x9E3779B97F4A7C15ull);
        if (!tls.s) tls.s = 88172645463325252ull;
        rnd(); rnd();
    }
    if (gLastThread != tls.id) {
        gLastThread = tls.id;
        gSig = (gSig ^ (g * 2654435761u + tls.id % 16)) * 1099511628211ull;
    }
    tls.inside = true;
    for (int i = 0; i < gCfg.nstall; ++i) {
        if (gCfg.stall[i] == g) {
            if (rnd() % 3 == 0) gCfg.stall[i] = 0;
            if (rnd() % 2) napUs(1 + (long) (rnd() % (uint64_t) (gCfg.stallUs + 1)));
        }
    }
    uint64_t r = rnd() % 1000;
    if ((int) r < gCfg.yieldPM) sched_yield();
    else if ((int) r < gCfg.yieldPM + gCfg.sleepPM) napUs(1 + (long) (rnd() % (uint64_t) (gCfg.maxUs + 1)));
    tls.inside = false;
}

extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    uint32_t g = *guard;
    if (g) visit(g);
}
// gcc: no guard, so the return address stands for the edge
extern "C" void __sanitizer_cov_trace_pc() {
    gTotal = MAXE - 1;
    visit(1 + (uint32_t) ((((uintptr_t) __builtin_return_address(0)) * 0x9E3779B97F4A7C15ull) >> 46) % (MAXE - 2));
}

namespace vh {
void noiseBegin(const Noise &n, uint64_t seed) {
    gCfg.on = false;
    gCfg.yieldPM = n.yieldPerMille;
    gCfg.sleepPM = n.sleepPerMille;
    gCfg.maxUs = n.maxSleepUs;
    gCfg.stallUs = n.stallUs;
    gCfg.seed = seed;
    Rng r(seed);
    int k = n.stalls > 8 ? 8 : n.stalls;
    // stall targets are drawn among edges this process has already executed
    for (int i = 0; i < k; ++i) {
        uint32_t g = 0;
        for (int t = 0; t < 4000 && gTotal; ++t) {
            uint32_t cand = 1 + (uint32_t) r.below(gTotal);
            if (cand < MAXE && gHit[cand]) { g = cand; break; }
        }
        gCfg.stall[i] = g;
    }
    gCfg.nstall = k;
    gSig = seed % 7;
    gNextThread = 1;
    gLastThread = 0;
    gCfg.epoch = gCfg.epoch + 1;
    gCfg.on = true;
}
uint64_t noiseEnd() {
    gCfg.on = false;
    return gSig;
}
void noisePause(bool p) { tls.paused = p; }
size_t edgesTotal() { return gTotal; }
size_t edgesHit() {
    size_t n = 0;
    for (uint32_t i = 1; i <= gTotal && i < MAXE; ++i) n += gHit[i];
    return n;
}
} // namespace vh
