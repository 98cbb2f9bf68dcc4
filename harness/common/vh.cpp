#include "vh.hpp"
#include <csignal>
#include <dirent.h>
#include <fstream>
#include <sched.h>
#include <spdlog/spdlog.h>
#include <sys/syscall.h>
#include <unordered_set>

namespace vh {
namespace {
struct State {
    std::map<std::string, ScenarioFn> scenarios;
    std::string scenario, out;
    uint64_t seed = 1;
    long first = 0, cases = 1;
    bool thorough = false;
    std::map<std::string, long long> counters;
    std::unordered_set<uint64_t> distinct, interleavings;
    std::vector<std::string> samples;
    long done = 0, nontrivial = 0;
};
State &st() { static State *s = new State; return *s; }
std::atomic<long> gProgress{0};
std::atomic<long> gCase{-1};
std::atomic<int> gMainWaiting{0};
std::atomic<const char *> gWaitWhat{""};
std::atomic<bool> gStopWatch{false};
Case *gCurrent = nullptr;
std::atomic<bool> gVerdict{false};
int gMainTid = 0;

std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}
void writeOut(const std::string &status, const std::string &key, const std::string &detail) {
    State &s = st();
    if (s.out.empty()) return;
    std::ofstream f(s.out);
    f << "{\"status\":\"" << status << "\",\"key\":\"" << esc(key) << "\",\"detail\":\"" << esc(detail) << "\",";
    f << "\"scenario\":\"" << s.scenario << "\",\"seed\":" << s.seed << ",\"case\":" << gCase.load() << ",\"done\":" << s.done
      << ",\"nontrivial\":" << s.nontrivial << ",\"edges\":" << edgesHit() << ",\"edges_total\":" << edgesTotal();
    f << ",\"counters\":{";
    bool c = false;
    if (status == "ok") for (auto &p : s.counters) { f << (c ? "," : "") << "\"" << p.first << "\":" << p.second; c = true; }
    f << "},\"samples\":[";
    c = false;
    if (status == "ok") for (auto &p : s.samples) { f << (c ? "," : "") << "\"" << esc(p) << "\""; c = true; }
    f << "],\"distinct\":[";
    c = false;
    if (status == "ok") for (auto h : s.distinct) { f << (c ? "," : "") << "\"" << std::hex << h << std::dec << "\""; c = true; }
    f << "],\"interleavings\":[";
    c = false;
    if (status == "ok") for (auto h : s.interleavings) { f << (c ? "," : "") << "\"" << std::hex << h << std::dec << "\""; c = true; }
    f << "]}\n";
}

struct TInfo { char state; long cpu; long sw; };
int watcherTid = 0;
std::map<int, TInfo> threads() {
    std::map<int, TInfo> r;
    DIR *d = opendir("/proc/self/task");
    if (!d) return r;
    while (dirent *e = readdir(d)) {
        int tid = atoi(e->d_name);
        if (tid <= 0 || tid == watcherTid) continue;
        char p[64], buf[1024];
        snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
        FILE *f = fopen(p, "r");
        if (!f) continue;
        size_t n = fread(buf, 1, sizeof buf - 1, f);
        fclose(f);
        buf[n] = 0;
        char *q = strrchr(buf, ')');
        if (!q) continue;
        TInfo t{'?', 0, 0};
        long ut = 0, stt = 0;
        sscanf(q + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %ld %ld", &t.state, &ut, &stt);
        t.cpu = ut + stt;
        snprintf(p, sizeof p, "/proc/self/task/%d/status", tid);
        f = fopen(p, "r");
        if (f) {
            char line[256];
            while (fgets(line, sizeof line, f)) {
                long v;
                if (sscanf(line, "voluntary_ctxt_switches: %ld", &v) == 1) t.sw += v;
            }
            fclose(f);
        }
        r[tid] = t;
    }
    closedir(d);
    return r;
}

// Decide, from what the threads did since the last progress, whether they are stuck.
void *watch(void *) {
    watcherTid = (int) syscall(SYS_gettid);
    long last = -1;
    int64_t since = now();
    std::map<int, TInfo> base;
    bool everRunnable = false;
    const int64_t S = 1000000000LL;
    while (!gStopWatch.load(std::memory_order_relaxed)) {
        usleep(250000);
        long p = gProgress.load(std::memory_order_relaxed);
        if (p != last) { last = p; since = now(); base.clear(); everRunnable = false; continue; }
        int64_t dt = now() - since;
        if (dt < 3 * S) continue;
        auto cur = threads();
        if (base.empty()) { base = cur; everRunnable = false; continue; }
        bool mainPolls = gMainWaiting.load(std::memory_order_relaxed) > 0;
        bool allBlocked = true, ample = true;
        for (auto &t : cur) {
            if (t.first == gMainTid && mainPolls) continue;
            auto b = base.find(t.first);
            long dc = b == base.end() ? t.second.cpu : t.second.cpu - b->second.cpu;
            long ds = b == base.end() ? t.second.sw : t.second.sw - b->second.sw;
            bool asleep = t.second.state == 'S';
            if (!asleep) { allBlocked = false; everRunnable = true; }
            bool idle = asleep && dc == 0 && ds == 0;
            // the sanitizer run-time's own background thread wakes ten times a second
            bool background = ds <= dt / S * 25 && dc <= 2;
            if (!(idle || (asleep && background))) allBlocked = false;
            if (!(idle || background || ds >= 1000 || dc >= 300)) ample = false;
        }
        bool stuck = (allBlocked && !everRunnable && dt > 13 * S) || (ample && dt > 40 * S);
        if (stuck || dt > 150 * S) {
            if (gVerdict.exchange(true)) { sleep(5); continue; }
            std::string what = gWaitWhat.load();
            std::ostringstream d;
            d << (stuck ? (allBlocked ? "every thread is blocked" : "threads keep running without progress") : "inconclusive: threads were starved")
              << " while waiting for: " << (what.empty() ? "(case body)" : what) << "; case: " << (gCurrent ? gCurrent->desc.str() : "");
            std::string key = (stuck ? "hang:" : "inconclusive:") + st().scenario + (what.empty() ? "" : ":" + what);
            fprintf(stderr, "VH-HANG %s %s\n", key.c_str(), d.str().c_str());
            for (auto &t : cur) fprintf(stderr, "  thread %d state %c cpu %ld sw %ld\n", t.first, t.second.state, t.second.cpu, t.second.sw);
            writeOut(stuck ? "violation" : "inconclusive", key, d.str());
            _exit(stuck ? 40 : 41);
        }
    }
    return nullptr;
}
} // namespace

Register::Register(const char *name, ScenarioFn fn) { st().scenarios[name] = fn; }
void count(const std::string &name, long long n) { st().counters[name] += n; }
void countMax(const std::string &name, long long n) { auto &v = st().counters["max_" + name]; if (n > v) v = n; }
void progress() { gProgress.fetch_add(1, std::memory_order_relaxed); }
bool thorough() { return st().thorough; }
void SpinStart::sched_yield_() { ::sched_yield(); }

void violation(const std::string &key, const std::string &detail) {
    if (gVerdict.exchange(true)) { for (;;) usleep(100000); }
    std::string d = detail + "\ncase: " + (gCurrent ? gCurrent->desc.str() : std::string());
    fprintf(stderr, "VH-VIOLATION scenario=%s seed=%llu case=%ld key=%s\n%s\n", st().scenario.c_str(), (unsigned long long) st().seed,
            gCase.load(), key.c_str(), d.c_str());
    fflush(stderr);
    writeOut("violation", key, d);
    _exit(10);
}

HarnessWait::HarnessWait(const char *what) {
    gWaitWhat.store(what, std::memory_order_relaxed);
    if ((int) syscall(SYS_gettid) == gMainTid) gMainWaiting.fetch_add(1, std::memory_order_relaxed);
}
HarnessWait::~HarnessWait() {
    gWaitWhat.store("", std::memory_order_relaxed);
    if ((int) syscall(SYS_gettid) == gMainTid) gMainWaiting.fetch_sub(1, std::memory_order_relaxed);
}
void waitUntil(const char *what, const std::function<bool()> &pred) {
    HarnessWait w(what);
    for (int i = 0; !pred(); ++i) {
        if (i < 50) ::sched_yield();
        else usleep(i < 500 ? 50 : 500);
    }
}

Noise randomNoise(Rng &r) {
    Noise n;
    switch (r.below(6)) {
    case 0: break;
    case 1: n.yieldPerMille = 30; break;
    case 2: n.yieldPerMille = 5; n.sleepPerMille = 1; n.maxSleepUs = 40; break;
    case 3: n.stalls = 3; n.stallUs = 300; break;
    case 4: n.stalls = 6; n.stallUs = 1500; n.yieldPerMille = 3; break;
    case 5: n.yieldPerMille = 150; break;
    }
    return n;
}
WithNoise::WithNoise(Case &c_) : c(c_) { noiseBegin(randomNoise(c.rng), c.rng.next()); }
WithNoise::WithNoise(Case &c_, const Noise &n) : c(c_) { noiseBegin(n, c.rng.next()); }
WithNoise::~WithNoise() {
    uint64_t s = noiseEnd();
    if (st().interleavings.size() < 200000) st().interleavings.insert(s);
}

int run(int argc, char **argv) {
    State &s = st();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--scenario") s.scenario = v;
        else if (a == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--first") s.first = atol(v.c_str());
        else if (a == "--cases") s.cases = atol(v.c_str());
        else if (a == "--out") s.out = v;
        else if (a == "--tier") s.thorough = v == "thorough";
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    if (!s.scenarios.count(s.scenario)) {
        fprintf(stderr, "unknown scenario '%s'; have:", s.scenario.c_str());
        for (auto &p : s.scenarios) fprintf(stderr, " %s", p.first.c_str());
        fprintf(stderr, "\n");
        return 2;
    }
    spdlog::set_level(spdlog::level::off);
    gMainTid = (int) syscall(SYS_gettid);
    pthread_t w;
    pthread_create(&w, nullptr, watch, nullptr);
    for (long i = s.first; i < s.first + s.cases; ++i) {
        Case c;
        c.id = i;
        c.thorough = s.thorough;
        c.seed = mix(mix(s.seed, hashStr(s.scenario)), (uint64_t) i);
        c.rng = Rng(c.seed);
        gCurrent = &c;
        gCase = i;
        progress();
        try {
            s.scenarios[s.scenario](c);
        } catch (const std::exception &e) {
            violation("exception:" + s.scenario, std::string("unexpected exception reached the caller: ") + e.what());
        }
        gCurrent = nullptr;
        s.done++;
        if (c.nontrivial) {
            s.nontrivial++;
            if (s.distinct.size() < 200000) s.distinct.insert(mix(c.sig, hashStr(s.scenario)));
            if (s.samples.size() < 2) s.samples.push_back(s.scenario + "#" + std::to_string(i) + ": " + c.desc.str());
        }
    }
    gStopWatch = true;
    pthread_join(w, nullptr);
    if (!gVerdict.load()) writeOut("ok", "", "");
    return 0;
}
} // namespace vh

int main(int argc, char **argv) { return vh::run(argc, argv); }
