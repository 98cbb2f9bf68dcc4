// Small run-time monitoring framework shared by every harness.
//   * scenarios: one generated case per (seed, case number); everything a case does is drawn
//     from its own PRNG, so `--seed S --scenario X --first N --cases 1` replays the workload.
//   * verdicts: violation() writes the witness and ends the process with exit code 10;
//     the watchdog ends it with 40 (threads had ample steps but made no progress / are all
//     blocked) or 41 (inconclusive).
//   * observation: counters, signatures of distinct non-trivial cases, samples.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + (long) below((uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int) below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class C> auto &pick(C &c) { return c[below(c.size())]; }
    template<class C> const auto &pick(const C &c) { return c[below(c.size())]; }
};

// distinct names of different kinds: short, prefixes of each other, long with a common beginning, awkward
inline std::string nameOf(int style, const char *base, long i) {
    switch (style & 3) {
    case 0: return base + std::to_string(i);
    case 1: return i < 6 ? std::string((size_t) i + 1, base[0]) : base + std::to_string(i);
    case 2: return std::string("a/name/that/does/not/fit/inside/") + base + "/" + std::to_string(i);
    default: return std::string(i & 1 ? " " : "") + base + (i & 2 ? "\n%s" : "{}") + std::to_string(i);
    }
}

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
inline uint64_t hashStr(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

// monotone clock in ns; never synchronises threads
inline int64_t now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (int64_t) ts.tv_sec * 1000000000LL + ts.tv_nsec;
}

struct Case {
    uint64_t seed = 0;
    long id = 0;
    bool thorough = false;
    Rng rng;
    std::ostringstream desc;     // what this case is (written out as a sample)
    uint64_t sig = 0;            // signature used to count distinct cases
    bool nontrivial = false;
    void mark(uint64_t v) { sig = mix(sig, v); }
};

[[noreturn]] void violation(const std::string &key, const std::string &detail);
void count(const std::string &name, long long n = 1);      // main thread only
void countMax(const std::string &name, long long n);
void progress();                                           // any thread
bool thorough();

// The calling thread is the harness' own poller while one of these is alive.
struct HarnessWait {
    HarnessWait(const char *what);
    ~HarnessWait();
};
// Polls until pred() holds; the watchdog decides if it never does.
void waitUntil(const char *what, const std::function<bool()> &pred);

// --- schedule noise (vh_noise.cpp)
struct Noise {
    int yieldPerMille = 0;
    int sleepPerMille = 0;
    int maxSleepUs = 0;
    int stalls = 0;            // number of one-shot targeted stalls
    int stallUs = 0;
};
void noiseBegin(const Noise &n, uint64_t seed);
uint64_t noiseEnd();           // returns interleaving signature
Noise randomNoise(Rng &r);
void noisePause(bool paused);  // this thread
size_t edgesTotal();
size_t edgesHit();

// Runs case bodies under random noise and accounts the interleaving signature.
struct WithNoise {
    Case &c;
    explicit WithNoise(Case &c_);
    WithNoise(Case &c_, const Noise &n);
    ~WithNoise();
};

// barrier for starting threads together without leaving happens-before residue
struct SpinStart {
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    void arrive() {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (!go.load(std::memory_order_relaxed)) sched_yield_();
    }
    void release(int n) {
        while (ready.load(std::memory_order_relaxed) < n) sched_yield_();
        go.store(true, std::memory_order_relaxed);
    }
    static void sched_yield_();
};

typedef void (*ScenarioFn)(Case &);
struct Register {
    Register(const char *name, ScenarioFn fn);
};
#define VH_SCENARIO(name) \
    static void name(vh::Case &c); \
    static vh::Register reg_##name(#name, name); \
    static void name(vh::Case &c)

#define VH_CHECK(cond, key, detail) \
    do { \
        if (!(cond)) { \
            std::ostringstream vh_os_; \
            vh_os_ << detail; \
            vh::violation(key, vh_os_.str()); \
        } \
    } while (0)

int run(int argc, char **argv);
} // namespace vh
