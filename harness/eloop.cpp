// C18: the event loop delivers every accepted event once, in order, and accounts for the rest.
// C19: tasks scheduled on the event loop.
#include "vh.hpp"
#include "moncontainer.hpp"
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <spdlog/spdlog.h>
#include <optional>
using namespace kpsr;
using namespace kpsr::high_performance;

namespace {
struct Ev {
    int producer = -1;
    long n = -1;
    long name = -1;
    std::vector<uint32_t> body;
    uint64_t sum = 0;
    long long born = 0;
    void fill(vh::Rng &r, int p, long k, long nm) {
        producer = p; n = k; name = nm;
        born = (long long) TimeUtils::getCurrentNanosecondsAsLlu();
        body.resize(r.below(12));
        sum = vh::mix(vh::mix(p, k), nm);
        for (auto &x : body) { x = (uint32_t) r.next(); sum = vh::mix(sum, x); }
    }
    uint64_t compute() const {
        uint64_t s = vh::mix(vh::mix(producer, n), name);
        for (auto &x : body) s = vh::mix(s, x);
        return s;
    }
};
struct Seen { int producer; long n; long name; };
void cloneEv(const Ev &a, Ev &b) { b = a; }
void initEv(Ev &e) { e.body.reserve(12); }

// prefixes of each other; equally long; long with a common beginning; awkward
int nameSet = 0;
const char *const nameSets[][4] = {{"camera", "imu_external", "cam", "camera_external"},
                                   {"imu", "gps", "cam", "img"},
                                   {"external/temperature/outside/a", "external/temperature/outside/b", "external/temperature/outside/c", "external/temperature/outside/aa"},
                                   {"", " ", "a b", "aa"},
                                   {"AaAa", "BBBB", "AaBB", "BBAa"}};
std::string nameOf(long i) { return nameSets[nameSet][i]; }

struct Traffic {
    vh::Case &c;
    vh::Rng &r;
    long names, producers;
    bool unsafe;
    int poolSize, style;
    MonContainer box;
    Container *cont;
    std::vector<std::vector<Seen>> log;          // per name, first listener; written by the loop thread
    std::vector<std::vector<Seen>> log2;         // second listener
    std::vector<Seen> all;
    std::vector<std::unique_ptr<std::atomic<long>>> delivered;
    std::vector<std::unique_ptr<std::atomic<long>>> published;
    std::thread::id mainId = std::this_thread::get_id(), loopId = mainId;
    std::atomic<bool> gate{false};
    int throwEvery = 0, slowEvery = 0;
    std::atomic<long> inFlight{0}, maxInFlight{0};
    bool watchThread = true;
    std::atomic<bool> quiet{false};              // set while the loop is stopped
    std::vector<long long> underway;   // per name: time from the making of its events to their delivery
    std::atomic<long> newest{-1};                // the latest event delivered
    std::mutex kept;
    std::vector<std::weak_ptr<const Ev>> given;  // events handed over by pointer
    void released() {
        std::lock_guard<std::mutex> g(kept);
        for (auto &w : given) VH_CHECK(throwEvery || w.expired(), "eloop:event-kept", "an event is still held although it has been delivered to everyone");
        vh::count("events_released", throwEvery ? 0 : (long) given.size());
    }
    // what the statistics say about the time between publication and delivery
    template<size_t N> void waits(EventLoopMiddlewareProvider<N> &prov) {
        if (!cont) return;
        for (long i = 0; i < names; ++i) {
            auto st = prov.template getSubscriber<Ev>(nameOf(i))->getSubscriptionStats("first");
            VH_CHECK(st && box.has(st.get()), "eloop:statistics", "no statistics of a listener in the container");
            long long waited = (long long) st->totalEnqueuedTimeInNs;
            VH_CHECK((long) st->totalProcessed == (long) log[i].size(), "eloop:statistics", st->totalProcessed << " events processed according to the statistics, " << log[i].size() << " delivered");
            VH_CHECK(waited <= underway[i] && (waited > 0 || log[i].empty()), "eloop:time-in-queue", log[i].size() << " events waited " << waited << " ns according to the statistics, at most " << underway[i] << " since they were made");
            vh::count("waits_measured", (long) log[i].size());
        }
    }
    Traffic(vh::Case &c_) : c(c_), r(c_.rng) {
        nameSet = (int) r.below(sizeof nameSets / sizeof *nameSets);
        names = r.range(1, 4);
        producers = r.range(1, 4);
        unsafe = r.chance(1, 3);
        poolSize = r.chance(1, 2) ? 0 : (int) r.range(1, 9);
        style = (int) r.below(3);
        cont = r.chance(1, 2) ? &box : nullptr;
        if (r.chance(1, 4)) throwEvery = (int) r.range(2, 6);
        if (r.chance(1, 4)) slowEvery = (int) r.range(3, 20);
        log.resize(names); log2.resize(names); underway.resize(names);
        for (long i = 0; i < names; ++i) {
            delivered.emplace_back(new std::atomic<long>(0));
            published.emplace_back(new std::atomic<long>(0));
        }
    }
    void onEvent(long nm, const Ev &e) {
        VH_CHECK(inFlight.fetch_add(1) == 0, "eloop:overlap", "two listeners ran at the same time");
        VH_CHECK(!quiet.load(), "eloop:delivered-stopped", "an event was delivered while the loop was stopped");
        if (watchThread) {
            if (loopId == mainId) loopId = std::this_thread::get_id();
            VH_CHECK(std::this_thread::get_id() == loopId && loopId != mainId, "eloop:thread", "listeners run by different threads");
        }
        VH_CHECK(e.name == nm, "eloop:wrong-name", "event published as " << nameOf(e.name) << " delivered as " << nameOf(nm));
        VH_CHECK(e.compute() == e.sum, "eloop:content", "event " << e.producer << ":" << e.n << " delivered with other content");
        underway[nm] += (long long) TimeUtils::getCurrentNanosecondsAsLlu() - e.born;
        newest.store(e.n);
        log[nm].push_back({e.producer, e.n, nm});
        all.push_back({e.producer, e.n, nm});
        while (gate.load(std::memory_order_relaxed)) usleep(20);
        if (slowEvery && (long) all.size() % slowEvery == 0) usleep(30);
        vh::progress();
        inFlight.fetch_sub(1);
        delivered[nm]->fetch_add(1, std::memory_order_release);
    }
    template<size_t N> void listen(EventLoopMiddlewareProvider<N> &prov) {
        for (long i = 0; i < names; ++i) {
            Subscriber<Ev> *s = prov.template getSubscriber<Ev>(nameOf(i));
            VH_CHECK(s == prov.template getSubscriber<Ev>(nameOf(i)), "eloop:two-subscribers", "the same event gave two subscribers");
            s->registerListener("second", [this, i](const Ev &e) { log2[i].push_back({e.producer, e.n, e.name}); });
            s->registerListener("first", [this, i](const Ev &e) { onEvent(i, e); });
            if (throwEvery) s->registerListener("thrower", [this](const Ev &e) { if (e.n % throwEvery == 0) throw std::runtime_error("listener"); });
        }
    }
    template<size_t N> EventLoopPublisher<Ev, N> *pub(EventLoopMiddlewareProvider<N> &prov, long i) {
        std::function<void(Ev &)> init;
        std::function<void(const Ev &, Ev &)> clone;
        if (style & 1) init = initEv;
        if (style & 2) clone = cloneEv;
        Publisher<Ev> *p = prov.template getPublisher<Ev>(nameOf(i), poolSize, init, clone, unsafe);
        VH_CHECK(p == prov.template getPublisher<Ev>(nameOf(i), poolSize, init, clone, unsafe), "eloop:two-publishers", "the same event gave two publishers");
        return static_cast<EventLoopPublisher<Ev, N> *>(p);
    }
    void publish(Publisher<Ev> *p, vh::Rng &q, int producer, long n, long nm) {
        Ev e;
        e.fill(q, producer, n, nm);
        published[nm]->fetch_add(1);
        switch (q.below(3)) {
        case 0: p->publish(e); break;
        case 1: {
            auto x = std::make_shared<const Ev>(e);
            { std::lock_guard<std::mutex> g(kept); given.push_back(x); }
            p->publish(x);
            break;
        }
        default: p->processAndPublish([&e](Ev &x) { x = e; });
        }
    }
    // what was delivered is what was accepted, once each and in order
    void judge(const std::vector<long> &discarded) {
        std::map<int, long> last;
        for (auto &s : all) {
            auto it = last.find(s.producer);
            VH_CHECK(it == last.end() || it->second < s.n, "eloop:order", "producer " << s.producer << ": event " << s.n << " delivered after " << it->second);
            last[s.producer] = s.n;
        }
        for (long i = 0; i < names; ++i) {
            VH_CHECK((long) log[i].size() == published[i]->load() - discarded[i], "eloop:accounting",
                     nameOf(i) << ": " << published[i]->load() << " published, " << discarded[i] << " discarded, " << log[i].size() << " delivered");
            VH_CHECK(log[i].size() == log2[i].size(), "eloop:listeners-differ", "two listeners saw " << log[i].size() << " and " << log2[i].size() << " events");
            for (size_t k = 0; k < log[i].size(); ++k)
                VH_CHECK(log[i][k].producer == log2[i][k].producer && log[i][k].n == log2[i][k].n, "eloop:listeners-differ", "two listeners saw different sequences");
        }
    }
};

template<size_t N> struct Rig {
    Traffic &t;
    EventLoopMiddlewareProvider<N> prov;
    std::vector<EventLoopPublisher<Ev, N> *> pubs;
    std::vector<Subscriber<Ev> *> subs;
    Rig(Traffic &t_, long timeout = EVENT_LOOP_START_TIMEOUT_MICROSEC) : t(t_), prov(t_.cont, "el", timeout) {
        t.listen(prov);
        for (long i = 0; i < t.names; ++i) pubs.push_back(t.pub(prov, i)), subs.push_back(prov.template getSubscriber<Ev>(nameOf(i)));
    }
    std::vector<long> discarded() {
        std::vector<long> d;
        for (auto p : pubs) d.push_back((long) p->_discardedMessages);
        return d;
    }
    void drain() {
        vh::waitUntil("every accepted event to be delivered", [this] {
            for (long i = 0; i < t.names; ++i)
                if (t.delivered[i]->load(std::memory_order_acquire) < t.published[i]->load() - (long) pubs[i]->_discardedMessages) return false;
            return true;
        });
    }
    void start() {
        t.quiet = false;
        if (t.watchThread && !prov.isRunning()) t.loopId = t.mainId;
        for (int k = 0; ; ++k) {
            if (k) usleep(200);
            try { prov.start(); break; }
            catch (const std::runtime_error &) { vh::count("start_timeouts"); prov.stop(); }
        }
        VH_CHECK(prov.isRunning(), "eloop:not-running", "start() returned and the loop does not run");
    }
    void stop() {
        prov.stop();
        VH_CHECK(!prov.isRunning(), "eloop:running", "stop() returned and the loop runs");
        t.quiet = true;
    }
};

template<size_t N> void acceptCase(vh::Case &c) {
    Traffic t(c);
    long each = c.rng.range(5, c.rng.chance(1, 3) ? 400 : 60);
    c.desc << "ring " << N << " names " << t.names << " producers " << t.producers << " x" << each << " pool " << t.poolSize << " style " << t.style << (t.unsafe ? " unsafe" : "")
           << (t.cont ? " container" : "") << " throwEvery " << t.throwEvery << " slowEvery " << t.slowEvery;
    c.mark(vh::hashStr(c.desc.str()));
    std::vector<uint64_t> seeds;
    for (long p = 0; p < t.producers; ++p) seeds.push_back(c.rng.next());
    int pace = (int) c.rng.below(3);
    {
        vh::WithNoise noise(c);
        Rig<N> rig(t);
        rig.start();
        vh::SpinStart go;
        std::vector<std::thread> ts;
        for (long p = 0; p < t.producers; ++p)
            ts.emplace_back([&, p] {
                vh::Rng q(seeds[p]);
                go.arrive();
                for (long k = 0; k < each; ++k) {
                    long nm = (long) q.below(t.names);
                    t.publish(rig.pubs[nm], q, (int) p, k, nm);
                    if (pace == 1 && q.chance(1, 4)) usleep((useconds_t) q.below(60));
                    if (pace == 2) sched_yield();
                    vh::progress();
                }
            });
        go.release((int) t.producers);
        for (long i = 0; i < t.names; ++i)
            VH_CHECK(t.pub(rig.prov, i) == rig.pubs[i] && rig.prov.template getSubscriber<Ev>(nameOf(i)) == rig.subs[i], "eloop:another", "asked again, a running loop gave another publisher or subscriber");
        for (auto &x : ts) x.join();
        rig.drain();
        rig.stop();
        auto d = rig.discarded();
        t.judge(d);
        t.waits(rig.prov);
        t.released();
        long sum = 0, got = 0;
        for (long x : d) sum += x;
        got = (long) t.all.size();
        vh::count("events_delivered", got);
        vh::count("events_discarded", sum);
        if (got) c.nontrivial = true;
        vh::count("shared_publisher_cases", t.producers > 1 && t.names < t.producers);
    }
    if (t.cont) VH_CHECK(t.box.subs.empty() && t.box.pubs.empty(), "eloop:left-attached", t.box.subs.size() << " subscription and " << t.box.pubs.size() << " publication statistics left in the container");
}

// Exactly as many events as the ring has slots are accepted while the loop is busy; the discard counter tells which.
template<size_t N> void capacityCase(vh::Case &c) {
    Traffic t(c);
    t.producers = 1;
    t.throwEvery = c.rng.chance(1, 2) ? t.throwEvery : 0;
    t.slowEvery = 0;
    c.desc << "ring " << N << " names " << t.names << " pool " << t.poolSize << " style " << t.style << (t.unsafe ? " unsafe" : "") << (t.cont ? " container" : "") << " throwEvery " << t.throwEvery << " rounds";
    vh::WithNoise noise(c);
    Rig<N> rig(t);
    rig.start();
    long n = 0;
    std::vector<std::pair<long, long>> accepted;      // (n, name)
    auto total = [&] { long s = 0; for (auto &d : t.delivered) s += d->load(std::memory_order_acquire); return s; };
    auto give = [&]() -> bool {
        long nm = (long) c.rng.below(t.names);
        auto before = rig.pubs[nm]->_discardedMessages;
        t.publish(rig.pubs[nm], c.rng, 0, n, nm);
        auto after = rig.pubs[nm]->_discardedMessages;
        VH_CHECK(after == before || after == before + 1, "eloop:discard-count", "one publication changed the discard counter by " << (long) (after - before));
        if (after == before) accepted.emplace_back(n, nm);
        ++n;
        return after == before;
    };
    int rounds = (int) c.rng.range(1, 5);
    for (int k = 0; k < rounds; ++k) {
        long warm = (long) c.rng.below(N);
        for (long i = 0; i < warm; ++i) { give(); if (c.rng.chance(1, 2)) sched_yield(); }
        vh::waitUntil("the loop to be idle", [&] { return total() == (long) accepted.size(); });
        t.gate = true;
        size_t entered = t.all.size();
        long extra = c.rng.range(0, 4);
        long before = (long) accepted.size();
        bool first = give();
        // With everything before it already delivered, the blocked event can only be refused if the ring
        // has not been told yet; then the round is repeated.
        if (!first) { t.gate = false; vh::count("lagging_rounds"); --k; vh::waitUntil("idle", [&] { return total() == (long) accepted.size(); }); continue; }
        vh::waitUntil("the loop to take the blocking event", [&] { return t.inFlight.load(std::memory_order_acquire) == 1; });
        (void) entered;
        for (size_t i = 1; i < N; ++i)
            VH_CHECK(give(), "eloop:refused-early", "an event was discarded with " << i << " of " << N << " slots in use");
        for (long i = 0; i < extra; ++i)
            VH_CHECK(!give(), "eloop:accepted-beyond", "an event was accepted although all " << N << " slots hold events still to be consumed");
        vh::count("full_rings", 1);
        (void) before;
        t.gate = false;
        vh::waitUntil("every accepted event to be delivered", [&] { return total() == (long) accepted.size(); });
        vh::progress();
    }
    rig.stop();
    t.judge(rig.discarded());
    VH_CHECK(t.all.size() == accepted.size(), "eloop:accounting", t.all.size() << " delivered, " << accepted.size() << " accepted");
    for (size_t i = 0; i < accepted.size(); ++i)
        VH_CHECK(t.all[i].n == accepted[i].first && t.all[i].name == accepted[i].second, "eloop:order",
                 "delivery " << i << " was event " << t.all[i].n << ", acceptance " << i << " was " << accepted[i].first);
    c.desc << " " << rounds << " events " << n;
    c.mark(vh::hashStr(c.desc.str()));
    c.nontrivial = true;
}

template<size_t N> void restartCase(vh::Case &c) {
    Traffic t(c);
    c.desc << "ring " << N << " names " << t.names << " producers " << t.producers << " pool " << t.poolSize << " style " << t.style << (t.unsafe ? " unsafe" : "") << (t.cont ? " container" : "")
           << " throwEvery " << t.throwEvery;
    bool busy = c.rng.chance(1, 2);
    bool hasty = c.rng.chance(1, 4);
    int cycles = (int) c.rng.range(1, 5);
    bool destroyRunning = c.rng.chance(1, 3);
    c.desc << (busy ? " busy" : "") << (hasty ? " hasty" : "") << (destroyRunning ? " destroyed running" : "") << " cycles " << cycles;
    std::vector<uint64_t> seeds;
    for (long p = 0; p < t.producers; ++p) seeds.push_back(c.rng.next());
    {
        vh::WithNoise noise(c);
        Rig<N> rig(t, hasty ? 0 : EVENT_LOOP_START_TIMEOUT_MICROSEC);
        std::atomic<bool> done{false};
        std::vector<std::thread> ts;
        vh::SpinStart go;
        if (busy)
            for (long p = 0; p < t.producers; ++p)
                ts.emplace_back([&, p] {
                    vh::Rng q(seeds[p]);
                    go.arrive();
                    for (long k = 0; k < 3000 && !done.load(std::memory_order_relaxed); ++k) {
                        long nm = (long) q.below(t.names);
                        t.publish(rig.pubs[nm], q, (int) p, k, nm);
                        usleep((useconds_t) q.below(80));
                        vh::progress();
                    }
                });
        if (busy && c.rng.chance(1, 2)) rig.start(), rig.stop();
        if (busy) go.release((int) t.producers);
        long n = 0;
        vh::Rng q(c.rng.next());
        auto some = [&] {
            if (busy) { usleep((useconds_t) c.rng.below(1500)); return; }
            long k = (long) c.rng.below(2 * N);
            for (long i = 0; i < k; ++i) { long nm = (long) q.below(t.names); t.publish(rig.pubs[nm], q, 0, n++, nm); }
        };
        for (int k = 0; k < cycles; ++k) {
            some();
            // the thread that starts or stops the loop may be a new one each time, known by the number an earlier thread of the loop had
            auto by = [&](bool fresh, std::function<void()> f) {
                if (!fresh) { f(); return; }
                vh::HarnessWait w("a thread that starts or stops the loop");
                std::thread(f).join();
            };
            by(c.rng.chance(1, 2), [&] { rig.start(); });
            if (c.rng.chance(1, 6)) rig.prov.start();
            some();
            by(c.rng.chance(1, 2), [&] { rig.stop(); });
            if (c.rng.chance(1, 6)) rig.prov.stop();
            size_t s = t.all.size();
            some();
            VH_CHECK(t.all.size() == s, "eloop:delivered-stopped", "events were delivered while the loop was stopped");
            vh::progress();
            vh::count("restarts");
        }
        rig.start();
        some();
        done = true;
        for (auto &x : ts) x.join();
        if (destroyRunning && !busy && c.rng.chance(1, 2)) {
            c.mark(vh::hashStr(c.desc.str()));
            c.nontrivial = true;
            vh::count("destroyed_busy");
            return;
        }
        rig.drain();
        t.judge(rig.discarded());
        if (!destroyRunning) rig.stop();
        else vh::count("destroyed_running");
        vh::count("events_across_restarts", (long) t.all.size());
    }
    c.mark(vh::hashStr(c.desc.str()));
    c.nontrivial = true;
    if (t.cont) VH_CHECK(t.box.subs.empty() && t.box.pubs.empty(), "eloop:left-attached", "statistics left in the container");
}

// The loop stopped by a listener or a scheduled task, that is, by its own thread; then stopped, started again or destroyed by its owner.
template<size_t N> void selfStopCase(vh::Case &c) {
    Traffic t(c);
    t.producers = 1;
    t.slowEvery = 0;
    t.watchThread = false;
    int rounds = (int) c.rng.range(1, 5);
    bool tasks = c.rng.chance(1, 2), busy = c.rng.chance(1, 2), startInside = c.rng.chance(1, 2);
    c.desc << "ring " << N << " names " << t.names << " pool " << t.poolSize << (t.unsafe ? " unsafe" : "") << (t.cont ? " container" : "") << (tasks ? " tasks" : "") << (busy ? " busy" : "")
           << (startInside ? " start inside" : "") << " rounds " << rounds << ":";
    if (!tasks) t.throwEvery = 0;                 // it might throw before the stopper is called
    uint64_t seed = c.rng.next();
    {
        std::atomic<bool> armed{false}, insideStarted{false};
        std::atomic<long> stops{0};
        vh::WithNoise noise(c);
        auto rig = std::make_unique<Rig<N>>(t);
        auto *prov = &rig->prov;
        auto stopHere = [&, prov] {
            if (!armed.exchange(false)) return;
            prov->stop();
            VH_CHECK(!prov->isRunning(), "eloop:running", "stop() returned and the loop runs");
            if (startInside) try { prov->start(); insideStarted = true; } catch (const std::runtime_error &) {}
            stops.fetch_add(1);
        };
        if (!tasks) prov->template getSubscriber<Ev>(nameOf(0))->registerListener("stopper", [&](const Ev &) { stopHere(); });
        Scheduler *sched = tasks ? prov->getScheduler() : nullptr;
        std::atomic<bool> done{false};
        std::thread th;
        long n = 0;
        vh::Rng q(seed);
        if (busy) th = std::thread([&] {
            for (long k = 0; k < 20000 && !done.load(std::memory_order_relaxed); ++k) {
                long nm = (long) q.below(t.names);
                t.publish(rig->pubs[nm], q, 0, k, nm);
                usleep((useconds_t) q.below(80));
                vh::progress();
            }
        });
        for (int k = 0; k < rounds; ++k) {
            long before = stops.load();
            armed = true;
            if (sched) sched->startScheduledTask("stopper", 300, true, stopHere);
            bool first = c.rng.chance(1, 2);
            auto some = [&] { if (busy) return; for (long i = 0, m = c.rng.range(1, N); i < m; ++i) { t.publish(rig->pubs[0], q, 0, n, 0); ++n; } };
            if (first) some();
            try { prov->start(); } catch (const std::runtime_error &) { vh::count("start_timeouts"); }
            if (!first) some();
            vh::waitUntil("the loop to be stopped by what it runs", [&] { return stops.load() > before; });
            VH_CHECK(!insideStarted.load(), "eloop:started-from-own-thread", "a loop being stopped by its own thread was started again by it");
            // (what stopped it may have been an event left over from the round before, ahead of this start)
            if (!busy && c.rng.chance(1, 2) && !prov->isRunning()) {
                // its stop() has returned: what is published from now on waits for a restart
                t.publish(rig->pubs[0], q, 0, n, 0);
                usleep((useconds_t) c.rng.below(1500));
                VH_CHECK(t.newest.load() < n, "eloop:delivered-stopped", "an event published after the loop was stopped by what it runs was delivered");
                ++n;
                vh::count("published_after_self_stop");
            }
            int end = (int) c.rng.below(4);
            c.desc << ' ' << end;
            if (sched) sched->stopScheduledTask("stopper");
            if (end == 1) { vh::HarnessWait w("stop of an event loop that stopped itself"); prov->stop(); }
            if (end == 2) usleep((useconds_t) c.rng.below(400));
            if (end == 3 && k + 1 == rounds) break;
            if (end < 3) {
                vh::HarnessWait w("start of an event loop that stopped itself");
                rig->start();
                if (!busy) rig->drain();
                rig->stop();
                t.quiet = false;
            }
            vh::progress();
        }
        done = true;
        if (th.joinable()) th.join();
        vh::HarnessWait w("end of an event loop that stopped itself");
        if (c.rng.chance(1, 2)) {
            rig->start();
            rig->drain();
            rig->stop();
            t.quiet = false;
            t.judge(rig->discarded());
        }
        rig.reset();
        vh::count(tasks ? "stopped_by_task" : "stopped_by_listener", stops.load());
    }
    c.mark(vh::hashStr(c.desc.str()));
    c.nontrivial = true;
    if (t.cont && !tasks) VH_CHECK(t.box.subs.empty() && t.box.pubs.empty(), "eloop:left-attached", "statistics left in the container");
}
} // namespace

VH_SCENARIO(eloop_selfstop) {
    switch (c.rng.below(3)) {
    case 0: selfStopCase<4>(c); break;
    case 1: selfStopCase<16>(c); break;
    default: selfStopCase<64>(c);
    }
}
VH_SCENARIO(eloop_accept) {
    switch (c.rng.below(5)) {
    case 0: acceptCase<2>(c); break;
    case 1: acceptCase<4>(c); break;
    case 2: acceptCase<8>(c); break;
    case 3: acceptCase<32>(c); break;
    default: acceptCase<512>(c);
    }
}
VH_SCENARIO(eloop_capacity) {
    switch (c.rng.below(4)) {
    case 0: capacityCase<2>(c); break;
    case 1: capacityCase<4>(c); break;
    case 2: capacityCase<16>(c); break;
    default: capacityCase<64>(c);
    }
}
VH_SCENARIO(eloop_restart) {
    switch (c.rng.below(3)) {
    case 0: restartCase<4>(c); break;
    case 1: restartCase<16>(c); break;
    default: restartCase<64>(c);
    }
}
