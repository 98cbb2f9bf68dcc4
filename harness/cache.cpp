// C28: listeners that cache the last event, and forwarders from one middleware to another.
#include "vh.hpp"
#include <klepsydra/core/cache_listener.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/mem_core/concurrent_middleware_provider.h>
#include <spdlog/spdlog.h>
#ifndef NO_CONCURRENT
#define NO_CONCURRENT false
#endif
using namespace kpsr;

namespace {
struct Ev {
    long n = -1;
    std::vector<uint32_t> body;
    uint64_t sum = 0;
    static uint64_t compute(long n, const std::vector<uint32_t> &b) {
        uint64_t s = vh::mix(91, n);
        for (auto &x : b) s = vh::mix(s, x);
        return s;
    }
    void fill(vh::Rng &r, long k) {
        n = k;
        body.resize(1 + r.below(12));
        for (auto &x : body) x = (uint32_t) r.next();
        sum = compute(n, body);
    }
    bool whole() const { return compute(n, body) == sum; }
};
} // namespace

VH_SCENARIO(cache_model) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    int kind = (int) r.below(3);
    std::unique_ptr<mem::CacheListener<Ev>> l;
    mem::MultiThreadCacheListener<Ev> *multi = nullptr;
    if (kind == 0) l.reset(new mem::CacheListener<Ev>);
    if (kind == 1) l.reset(multi = new mem::MultiThreadCacheListener<Ev>);
    if (kind == 2) l.reset(new mem::TestCacheListener<Ev>(r.chance(1, 2) ? -1 : 0));
    EventEmitterMiddlewareProvider<Ev> prov(nullptr, "cache", (int) r.below(3), nullptr, nullptr);
    prov.getSubscriber()->registerListener("cache", l->cacheListenerFunction);
    VH_CHECK(!l->getLastReceivedEvent() && l->counter == 0, "cache:initial", "a new cache is not empty");
    std::vector<std::pair<std::shared_ptr<Ev>, long>> kept;
    long n = 0, time = 0;
    int ops = (int) r.range(3, 40);
    std::shared_ptr<Ev> raw;
    for (int i = 0; i < ops; ++i) {
        int op = (int) r.below(4);
        c.mark(op);
        raw.reset();
        Ev e;
        e.fill(r, n);
        switch (op) {
        case 0: prov.getPublisher()->publish(e); break;
        case 1: l->onEventReceived(e); break;
        case 2: raw = std::make_shared<Ev>(e); l->onEventReceivedRaw(raw); break;
        default: { auto p = std::make_shared<const Ev>(e); prov.getPublisher()->publish(p); }
        }
        ++n;
        Ev gone = e;
        e.fill(r, 1000000);                        // what the publisher does with its event afterwards is its business
        auto last = l->getLastReceivedEvent();
        VH_CHECK(last && last->n == n - 1 && last->whole(), "cache:last", "after event " << n - 1 << " the cache holds event " << (last ? last->n : -1));
        VH_CHECK(l->counter == n, "cache:count", n << " events received, counted " << l->counter);
        VH_CHECK(l->totalCopyingTime >= time, "cache:time", "the copying time went from " << time << " to " << l->totalCopyingTime);
        if (raw) VH_CHECK(last == raw, "cache:raw", "an event given by pointer was copied");
        if (multi) { auto p = multi->getCounterAndEvent(); VH_CHECK(p.first == n && p.second == last, "cache:pair", "counter and event do not belong together"); }
        time = l->totalCopyingTime;
        kept.emplace_back(last, n - 1);
        for (auto &k : kept) VH_CHECK(k.first->n == k.second && k.first->whole(), "cache:overwritten", "event " << k.second << " obtained from the cache was changed by a later one");
    }
    prov.getSubscriber()->removeListener("cache");
    Ev e;
    e.fill(r, 5);
    prov.getPublisher()->publish(e);
    VH_CHECK(l->counter == n, "cache:removed", "a removed cache received an event");
    c.desc << "cache kind " << kind << ", " << ops << " events";
    c.nontrivial = n > 2;
    vh::count("cached_events", n);
}

VH_SCENARIO(cache_threads) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    mem::MultiThreadCacheListener<Ev> l;
    int nw = (int) r.range(1, 3), nr = (int) r.range(1, 3), per = (int) r.range(20, c.thorough ? 400 : 150);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < nw + nr; ++i) seeds.push_back(r.next());
    std::atomic<int> writing{nw};
    std::mutex m;
    std::map<int, std::pair<std::shared_ptr<Ev>, long>> at;    // counter -> event (kept, so that addresses stay distinct)
    long pairs = 0, agreed = 0;
    {
        vh::WithNoise noise(c);
        vh::SpinStart go;
        std::vector<std::thread> ts;
        for (int w = 0; w < nw; ++w) ts.emplace_back([&, w] {
            vh::Rng q(seeds[w]);
            go.arrive();
            for (int i = 0; i < per; ++i) {
                Ev e;
                e.fill(q, (long) w * 1000000 + i);
                if (q.chance(1, 4)) l.onEventReceivedRaw(std::make_shared<Ev>(e));
                else if (q.chance(1, 2)) l.cacheListenerFunction(e);
                else l.onEventReceived(e);
                vh::progress();
            }
            writing.fetch_sub(1);
        });
        for (int t = 0; t < nr; ++t) ts.emplace_back([&, t] {
            go.arrive();
            std::vector<long> newest(nw, -1);
            int lastCount = 0;
            std::vector<std::pair<int, std::shared_ptr<Ev>>> mine;
            std::shared_ptr<Ev> prev;
            while (writing.load()) {
                auto p = l.getCounterAndEvent();
                VH_CHECK(p.first >= lastCount, "cache:count", "the counter went from " << lastCount << " to " << p.first);
                VH_CHECK((p.first == 0) == !p.second, "cache:pair", "counter " << p.first << " with" << (p.second ? " an event" : "out event"));
                lastCount = p.first;
                auto e = l.getLastReceivedEvent();
                for (auto &x : {p.second, e}) if (x) {
                    VH_CHECK(x->whole(), "cache:torn", "the cache returned a damaged event");
                    long w = x->n / 1000000, i = x->n % 1000000;
                    VH_CHECK(i >= newest[w], "cache:order", "after event " << newest[w] << " of a publisher the cache returned event " << i);
                    newest[w] = i;
                }
                if (p.second && (mine.empty() || mine.back().first != p.first) && mine.size() < 200) mine.push_back(p);
                else if (p.second && !mine.empty() && mine.back().first == p.first) VH_CHECK(mine.back().second == p.second, "cache:pair", "counter " << p.first << " was returned with two different events");
                sched_yield();
            }
            std::lock_guard<std::mutex> g(m);
            for (auto &p : mine) {
                ++pairs;
                auto it = at.find(p.first);
                if (it == at.end()) at[p.first] = {p.second, p.second->n};
                else { ++agreed; VH_CHECK(it->second.first == p.second, "cache:pair", "counter " << p.first << " was returned with events " << it->second.second << " and " << p.second->n); }
            }
        });
        go.release(nw + nr);
        for (auto &t : ts) t.join();
    }
    VH_CHECK(l.counter == nw * per, "cache:count", nw * per << " events received, counted " << l.counter);
    auto last = l.getLastReceivedEvent();
    VH_CHECK(last && last->n % 1000000 == per - 1, "cache:last", "the last event of no publisher is the last one cached");
    for (auto &x : at) VH_CHECK(x.second.first->n == x.second.second && x.second.first->whole(), "cache:overwritten", "an event obtained from the cache was changed later");
    if (nw == 1) for (auto &x : at) VH_CHECK(x.second.second == x.first - 1, "cache:pair", "counter " << x.first << " was returned with event " << x.second.second);
    c.desc << nw << " writers, " << nr << " readers, " << per << " events each";
    c.mark(nw * 10 + nr), c.mark(per);
    c.nontrivial = pairs > 0;
    vh::count("cached_concurrently", (long) nw * per);
    vh::count("counter_event_pairs", pairs);
    vh::count("pairs_seen_by_several", agreed);
}

// Events travel over 2-4 middlewares of different kinds joined by forwarders.
namespace {
struct Hop {
    virtual ~Hop() {}
    virtual Publisher<Ev> *pub() = 0;
    virtual Subscriber<Ev> *sub() = 0;
    virtual void start() {}
    virtual void stop() {}
    virtual const char *name() = 0;
};
struct EmitterHop : Hop {
    EventEmitterMiddlewareProvider<Ev> p;
    explicit EmitterHop(int pool) : p(nullptr, "emitter", pool, nullptr, nullptr) {}
    Publisher<Ev> *pub() override { return p.getPublisher(); }
    Subscriber<Ev> *sub() override { return p.getSubscriber(); }
    const char *name() override { return "emitter"; }
};
template<class P> struct MemHop : Hop {
    P p;
    const char *n;
    template<class... A> explicit MemHop(const char *n_, A &&...a) : p(std::forward<A>(a)...), n(n_) {}
    Publisher<Ev> *pub() override { return p.getPublisher(); }
    Subscriber<Ev> *sub() override { return p.getSubscriber(); }
    void start() override { p.start(); }
    void stop() override { p.stop(); }
    const char *name() override { return n; }
};
struct LoopHop : Hop {
    high_performance::EventLoopMiddlewareProvider<4096> p;
    int pool;
    explicit LoopHop(int pool_) : p(nullptr), pool(pool_) {}
    Publisher<Ev> *pub() override { return p.getPublisher<Ev>("event", pool, nullptr, nullptr); }
    Subscriber<Ev> *sub() override { return p.getSubscriber<Ev>("event"); }
    void start() override { p.start(); }
    void stop() override { p.stop(); }
    const char *name() override { return "event loop"; }
};
} // namespace

VH_SCENARIO(forward_chain) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    std::vector<std::unique_ptr<Hop>> hops;
    std::vector<std::unique_ptr<EventForwarder<Ev>>> fwd;
    int nh = (int) r.range(2, 4), nt = (int) r.range(1, 3), per = (int) r.range(5, 120);
    for (int i = 0; i < nh; ++i) {
        int pool = (int) r.below(8);
        int kind = (int) r.below(4);
        if (NO_CONCURRENT && kind == 2) kind = 1;   // the lock-free queue library itself is not understood by ThreadSanitizer
        switch (kind) {
        case 0: hops.emplace_back(new EmitterHop(pool)); break;
        case 1: hops.emplace_back(new MemHop<mem::BasicMiddlewareProvider<Ev>>("queue", nullptr, "queue", (int) r.range(1, 16), pool, nullptr, nullptr, false)); break;
        case 2: hops.emplace_back(new MemHop<mem::ConcurrentMiddlewareProvider<Ev>>("lock-free queue", nullptr, "lfqueue", 512, pool, nullptr, nullptr, false, 100)); break;
        default: hops.emplace_back(new LoopHop(pool));
        }
        c.desc << hops.back()->name() << (i + 1 < nh ? " -> " : "");
        c.mark(vh::hashStr(hops.back()->name()));
    }
    c.desc << ", " << nt << " publishers of " << per;
    c.mark(nt), c.mark(per);
    for (int i = 0; i + 1 < nh; ++i) {
        fwd.emplace_back(new EventForwarder<Ev>(hops[i + 1]->pub()));
        auto *f = fwd.back().get();
        hops[i]->sub()->registerListener("forwarder", [f](const Ev &e) { f->onMessageReceived(e); });
    }
    mem::MultiThreadCacheListener<Ev> cache;
    std::vector<std::vector<long>> got(nt);
    std::mutex gm;
    std::atomic<long> total{0};
    hops[0]->pub();
    hops.back()->sub()->registerListener("end", [&](const Ev &e) {
        std::lock_guard<std::mutex> g(gm);
        VH_CHECK(e.whole(), "forward:content", "a forwarded event arrived damaged");
        long t = e.n / 1000000;
        VH_CHECK(t >= 0 && t < nt, "forward:content", "a forwarded event arrived changed");
        got[t].push_back(e.n % 1000000);
        total.fetch_add(1, std::memory_order_release);
        vh::progress();
    });
    hops.back()->sub()->registerListener("cache", cache.cacheListenerFunction);
    for (int i = nh - 1; i >= 0; --i) hops[i]->start();
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nt; ++t) seeds.push_back(r.next());
    {
        vh::WithNoise noise(c);
        vh::SpinStart go;
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
            vh::Rng q(seeds[t]);
            Publisher<Ev> *p;
            { std::lock_guard<std::mutex> g(gm); p = hops[0]->pub(); }
            go.arrive();
            for (int i = 0; i < per; ++i) {
                Ev e;
                e.fill(q, (long) t * 1000000 + i);
                p->publish(e);
            }
        });
        go.release(nt);
        for (auto &t : ts) t.join();
        vh::waitUntil("every event arrived at the end of the chain", [&] { return total.load(std::memory_order_acquire) == (long) nt * per && cache.counter == nt * per; });
    }
    for (int i = 0; i < nh; ++i) hops[i]->stop();
    for (int t = 0; t < nt; ++t) {
        VH_CHECK((int) got[t].size() == per, "forward:count", "publisher " << t << ": " << got[t].size() << " of " << per << " events arrived");
        for (int i = 0; i < per; ++i) VH_CHECK(got[t][i] == i, "forward:order", "publisher " << t << ": event " << got[t][i] << " arrived at place " << i);
    }
    c.nontrivial = nh > 2 || nt > 1;
    vh::count("events_forwarded", (long) nt * per * (nh - 1));
    vh::count("chains", 1);
}
