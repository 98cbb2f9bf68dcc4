// C20: the data multiplexer gives every subscriber the newest event, on a thread of its own, and accounts for the rest.
#include "vh.hpp"
#include "moncontainer.hpp"
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>
#include <spdlog/spdlog.h>
using namespace kpsr;
using namespace kpsr::high_performance;

namespace {
struct Ev {
    long n = -1;
    std::vector<uint32_t> body;
    uint64_t sum = 0;
    int model = 0;                // set by the initialiser or by the model event; cloning leaves it alone
    std::atomic<int> *writers = nullptr;
    static uint64_t compute(long n, const std::vector<uint32_t> &b) {
        uint64_t s = vh::mix(77, n);
        for (auto &x : b) s = vh::mix(s, x);
        return s;
    }
    void fill(vh::Rng &r, long k) {
        n = k;
        body.resize(1 + r.below(10));
        for (auto &x : body) x = (uint32_t) r.next();
        sum = compute(n, body);
    }
    bool whole() const { return compute(n, body) == sum; }
};
struct Src { Ev e; };
thread_local bool boom = false;       // whoever fills in the next event fails half-way
struct Boom : std::runtime_error { Boom() : std::runtime_error("while filling in an event") {} };
void cloneEv(const Ev &a, Ev &b) {
    b.n = a.n;
    if (boom) { b.body.assign(3, 1); throw Boom(); }
    b.body = a.body;
    b.sum = a.sum;
}

struct Listener {
    std::string name;
    int slowUs = 0, slowEvery = 0, throwEvery = 0;
    bool last = false;            // last in order of registration: what it has returned, the subscriber has finished with
    std::vector<long> seen;
    std::vector<long> atLeast;    // newest event whose publication had ended when the previous delivery was finished
};
struct Sub {
    std::string name;
    std::vector<std::unique_ptr<Listener>> ls;
    std::thread::id tid;
    bool known = false;
    long bornAfter = 0;           // events accepted before it subscribed
    std::atomic<long> newest{-1};
    long floor = -1;
    std::atomic<int> inside{0};
    std::atomic<long> entered{0};
    std::atomic<bool> gate{false};
};

template<size_t N> struct Rig {
    vh::Case &c;
    vh::Rng &r;
    MonContainer box;
    Container *cont;
    int ctor, cloner, nameStyle = 0, faulty = 0;
    std::unique_ptr<DataMultiplexerMiddlewareProvider<Ev, N>> prov;
    std::vector<std::unique_ptr<Sub>> subs;
    std::vector<long> accepted;
    std::atomic<long> published{-1};   // newest accepted event whose publication has returned
    long n = 0, offered = 0, discarded = 0;
    int kinds[5] = {0, 0, 0, 0, 0};
    std::shared_ptr<EventTransformForwarder<Src, Ev>> fwd;
    Rig(vh::Case &c_) : c(c_), r(c_.rng) {
        cont = r.chance(1, 2) ? &box : nullptr;
        nameStyle = (int) r.below(4);
        faulty = r.chance(1, 3) ? (int) r.range(2, 12) : 0;
        ctor = (int) r.below(3);
        cloner = (int) r.below(2);
        std::function<void(const Ev &, Ev &)> cl;
        if (cloner) cl = cloneEv;
        std::function<void(Ev &)> init;
        if (ctor == 1) init = [](Ev &e) { e.model = 5; e.body.reserve(10); };
        if (ctor == 2) {
            Ev m;
            m.model = 5;
            m.sum = Ev::compute(m.n, m.body);
            prov.reset(new DataMultiplexerMiddlewareProvider<Ev, N>(cont, "mux", m, cl));
        } else
            prov.reset(new DataMultiplexerMiddlewareProvider<Ev, N>(cont, "mux", init, cl));
        fwd = prov->template getProcessForwarder<Src>([](const Src &s, Ev &e) { cloneEv(s.e, e); });
        c.desc << "ring " << N << " constructor " << ctor << " cloner " << cloner << (cont ? " container" : "") << (faulty ? " with failing publications" : "");
    }
    ~Rig() { prov.reset(); }             // its threads use the listeners
    void onEvent(Sub &s, Listener &l, const Ev &e) {
        VH_CHECK(s.inside.fetch_add(1) == 0, "mux:overlap", "two listeners of one subscriber ran at the same time");
        if (!s.known) { s.tid = std::this_thread::get_id(); s.known = true; }
        VH_CHECK(s.tid == std::this_thread::get_id(), "mux:thread", "listeners of one subscriber run by different threads");
        s.entered.fetch_add(1);
        long k = e.n;
        VH_CHECK(k >= 0 && e.whole(), "mux:content", "subscriber " << s.name << " was given a damaged event (number " << k << ")");
        if (ctor && cloner) VH_CHECK(e.model == 5, "mux:initialiser", "event " << k << " was not prepared by the initialiser or model");
        VH_CHECK(l.seen.empty() || l.seen.back() < k, "mux:order", "subscriber " << s.name << ": event " << k << " after " << l.seen.back());
        VH_CHECK(k >= s.floor, "mux:stale", "subscriber " << s.name << " was given event " << k << " although event " << s.floor << " had been published before it asked for the next");
        l.seen.push_back(k);
        while (s.gate.load(std::memory_order_relaxed)) usleep(20);
        if (l.slowEvery && l.seen.size() % l.slowEvery == 0) usleep(l.slowUs);
        VH_CHECK(e.n == k && e.whole(), "mux:overwritten", "event " << k << " changed while subscriber " << s.name << " was looking at it");
        if (l.last) {
            s.floor = published.load(std::memory_order_acquire);
            s.newest.store(k, std::memory_order_release);
            vh::progress();
        }
        s.inside.fetch_sub(1);
        if (l.throwEvery && l.seen.size() % l.throwEvery == 0) throw std::runtime_error("listener");
    }
    // A new subscriber waits 100 ms for its thread; on a loaded machine that can run out, which it reports.
    Subscriber<Ev> *subscriber(const std::string &name) {
        for (int tries = 0;; ++tries) {
            try { return prov->getSubscriber(name); }
            catch (const std::runtime_error &) { vh::count("start_timeouts"); if (tries == 100) throw; }
        }
    }
    void addSub(int nl, bool canThrow = true) {
        subs.emplace_back(new Sub);
        Sub *s = subs.back().get();
        s->name = vh::nameOf(nameStyle, "s", (long) subs.size());
        s->bornAfter = (long) accepted.size();
        Subscriber<Ev> *sub = subscriber(s->name);
        VH_CHECK(sub == prov->getSubscriber(s->name), "mux:two-subscribers", "one name, two subscribers");
        for (int i = 0; i < nl; ++i) {
            s->ls.emplace_back(new Listener);
            Listener *l = s->ls.back().get();
            l->name = vh::nameOf(nameStyle, "l", i);
            if (r.chance(1, 3)) { l->slowEvery = (int) r.range(1, 6); l->slowUs = (int) r.range(5, 300); }
            l->last = i == nl - 1;
            if (l->last && canThrow && r.chance(1, 5)) l->throwEvery = (int) r.range(2, 5);
            sub->registerListener(l->name, [this, s, l](const Ev &e) { onEvent(*s, *l, e); });
        }
        c.desc << " " << s->name << ":" << nl;
    }
    bool publish() {
        if (faulty && r.chance(1, faulty)) for (long i = 0, w = r.range(1, r.chance(1, 3) ? 2 * (long) N : 3); i < w; ++i) failToPublish();
        Publisher<Ev> *p = prov->getPublisher();
        auto before = (long) p->publicationStats.totalDiscardedEvents;
        Src src;
        src.e.fill(r, n);
        ++offered;
        int kind = (int) r.below(4);
        ++kinds[kind];
        switch (kind) {
        case 0: p->publish(src.e); break;
        case 1: { auto sp = std::make_shared<const Ev>(src.e); p->publish(sp); VH_CHECK(sp->n == n && sp->whole(), "mux:source-changed", "publishing changed the published event"); break; }
        case 2: p->processAndPublish([&](Ev &e) { cloneEv(src.e, e); }); break;
        default: fwd->forwarderListenerFunction(src);
        }
        long d = (long) p->publicationStats.totalDiscardedEvents - before;
        VH_CHECK(d == 0 || d == 1, "mux:discard-count", "one publication changed the discard counter by " << d);
        discarded += d;
        if (!d) { accepted.push_back(n); published.store(n, std::memory_order_release); }
        ++n;
        return !d;
    }
    // Whoever publishes may fail while filling in the event: then there is no event, and nothing else has changed.
    void failToPublish() {
        Publisher<Ev> *p = prov->getPublisher();
        auto before = (long) p->publicationStats.totalDiscardedEvents;
        Src src;
        src.e.fill(r, 1000000 + n);
        bool threw = false;
        boom = true;
        try {
            switch (r.below(cloner ? 4 : 2)) {
            case 0: p->processAndPublish([&](Ev &e) { cloneEv(src.e, e); }); break;
            case 1: fwd->forwarderListenerFunction(src); break;
            case 2: p->publish(src.e); break;
            default: p->publish(std::make_shared<const Ev>(src.e));
            }
        } catch (Boom &) { threw = true; }
        boom = false;
        long d = (long) p->publicationStats.totalDiscardedEvents - before;
        VH_CHECK(d == (threw ? 0 : 1), "mux:failed-publication", "a failing publication " << (threw ? "threw" : "did not throw") << " and counted " << d << " discarded events");
        offered += d;
        discarded += d;
        vh::count("failed_publications", threw);
    }
    void drain() {
        if (accepted.empty()) return;
        long last = accepted.back();
        for (auto &s : subs)
            if ((long) accepted.size() > s->bornAfter)
                vh::waitUntil("the newest event to reach every subscriber", [&] { return s->newest.load(std::memory_order_acquire) >= last; });
    }
    void judge() {
        std::set<std::thread::id> tids;
        for (auto &s : subs) {
            if (s->known) VH_CHECK(tids.insert(s->tid).second && s->tid != std::this_thread::get_id(), "mux:shared-thread", "two subscribers share a thread");
            auto *sub = static_cast<DataMultiplexerSubscriber<Ev, N> *>(prov->getSubscriber(s->name));
            for (auto &l : s->ls) {
                std::set<long> ok(accepted.begin() + s->bornAfter, accepted.end());
                for (long k : l->seen) VH_CHECK(ok.count(k), "mux:not-accepted", "event " << k << " was delivered although it had been discarded or published before the subscription");
                VH_CHECK(l->seen.size() == s->ls[0]->seen.size(), "mux:listeners-differ", "listeners of one subscriber saw different numbers of events");
                auto st = sub->getSubscriptionStats(l->name);
                vh::waitUntil("the subscriber to have accounted for every event", [&] { return (long) (l->seen.size() + st->totalDiscardedEvents) >= (long) ok.size(); });
                VH_CHECK((long) (l->seen.size() + st->totalDiscardedEvents) == (long) ok.size(), "mux:accounting",
                         "subscriber " << s->name << ": " << l->seen.size() << " delivered, " << (long) st->totalDiscardedEvents << " discarded, " << ok.size() << " accepted");
                vh::count("conflated_events", (long) st->totalDiscardedEvents);
                vh::count("delivered_events", (long) l->seen.size());
            }
        }
        VH_CHECK(offered == (long) accepted.size() + discarded, "mux:publisher-accounting", "publisher accounting");
        vh::count("refused_events", discarded);
    }
};

template<size_t N> void streamCase(vh::Case &c) {
    bool hadBox;
    MonContainer *box;
    vh::WithNoise noise(c);
    Rig<N> rig(c);
    hadBox = rig.cont != nullptr;
    box = &rig.box;
    int ns = (int) c.rng.range(1, 4);
    for (int i = 0; i < ns; ++i) rig.addSub((int) c.rng.range(1, 3));
    long events = c.rng.range(1, c.rng.chance(1, 4) ? 1500 : 200);
    int pace = (int) c.rng.below(4);
    long lateAt = c.rng.chance(1, 4) ? c.rng.range(1, events) : -1;
    for (long i = 0; i < events; ++i) {
        if (i == lateAt) { rig.drain(); rig.addSub(1); vh::count("late_subscribers"); }
        rig.publish();
        if (pace == 1) sched_yield();
        if (pace == 2 && c.rng.chance(1, 8)) usleep((useconds_t) c.rng.below(400));
        if (pace == 3) usleep((useconds_t) c.rng.below(30));
        if (c.rng.chance(1, 50)) rig.drain();
        vh::progress();
    }
    rig.drain();
    rig.judge();
    c.desc << " events " << events << " pace " << pace;
    c.mark(vh::hashStr(c.desc.str()));
    c.nontrivial = !rig.accepted.empty();
    rig.prov.reset();
    if (hadBox) VH_CHECK(box->subs.empty() && box->pubs.empty(), "mux:left-attached", "statistics left in the container");
}

template<size_t N> void capacityCase(vh::Case &c) {
    vh::WithNoise noise(c);
    Rig<N> rig(c);
    int ns = (int) c.rng.range(1, 3);
    for (int i = 0; i < ns; ++i) rig.addSub((int) c.rng.range(1, 2), false);
    int rounds = (int) c.rng.range(1, 6);
    for (int k = 0; k < rounds; ++k) {
        Sub &victim = *rig.subs[c.rng.below(rig.subs.size())];
        for (long i = 0, w = (long) c.rng.below(2 * N); i < w; ++i) rig.publish();
        rig.drain();
        victim.gate = true;
        size_t seenBefore = victim.ls.back()->seen.size();
        long enteredBefore = victim.entered.load();
        if (!rig.publish()) { victim.gate = false; rig.drain(); vh::count("lagging_rounds"); --k; continue; }
        vh::waitUntil("the subscriber to take the blocking event", [&] { return victim.entered.load(std::memory_order_acquire) > enteredBefore; });
        // the others keep up, so that only the blocked subscriber holds the ring
        auto others = [&] {
            for (auto &s : rig.subs)
                if (s.get() != &victim) vh::waitUntil("other subscribers not to be held up", [&] { return s->newest.load(std::memory_order_acquire) >= rig.accepted.back(); });
        };
        others();
        for (size_t i = 1; i < N; ++i)
            VH_CHECK(rig.publish(), "mux:refused-early", "an event was refused with " << i << " of " << N << " slots in use");
        long newest = rig.accepted.back();
        for (long i = 0, x = c.rng.range(1, 4); i < x; ++i)
            VH_CHECK(!rig.publish(), "mux:accepted-beyond", "an event was accepted although " << N << " slots are still to be consumed");
        others();
        vh::count("full_rings");
        victim.gate = false;
        rig.drain();
        VH_CHECK(victim.ls.back()->seen.back() == newest && victim.ls.back()->seen.size() == seenBefore + (N > 1 ? 2 : 1), "mux:conflation",
                 "after being blocked with " << N << " events pending, " << victim.ls.back()->seen.size() - seenBefore << " were delivered instead of the blocking and the newest one");
        vh::progress();
    }
    rig.judge();
    c.desc << " rounds " << rounds;
    c.mark(vh::hashStr(c.desc.str()));
    c.nontrivial = true;
}

// Providers coming and going with events in flight, and subscribers that do not come up in time.
template<size_t N> void lifeCase(vh::Case &c) {
    vh::WithNoise noise(c);
    int rounds = (int) c.rng.range(1, 4);
    for (int k = 0; k < rounds; ++k) {
        if (c.rng.chance(1, 2)) {
            Rig<N> rig(c);
            int ns = (int) c.rng.range(1, 3);
            for (int i = 0; i < ns; ++i) rig.addSub(1);
            for (long i = 0, w = (long) c.rng.below(4 * N); i < w; ++i) rig.publish();
            rig.prov.reset();
            for (auto &s : rig.subs) VH_CHECK(s->inside.load() == 0, "mux:running-after-destruction", "a listener runs although the multiplexer is gone");
            if (rig.cont) VH_CHECK(rig.box.subs.empty() && rig.box.pubs.empty(), "mux:left-attached", "statistics left in the container");
            vh::count("destroyed_busy");
        } else {
            typedef DataMultiplexerSubscriber<Ev, N> S;
            typename S::RingBuffer ring;
            DataMultiplexerPublisher<Ev, N> pub(nullptr, "direct", nullptr, ring);
            std::atomic<long> seen{-1};
            std::unique_ptr<S> keep(c.rng.chance(1, 2) ? new S(nullptr, "m", "keep", ring) : nullptr);
            if (keep) keep->registerListener("l", [&](const Ev &e) { seen = e.n; vh::progress(); });
            std::unique_ptr<S> hasty;
            try {
                hasty.reset(new S(nullptr, "m", "hasty", ring, -1 + (long) c.rng.below(2) * 100));
                vh::count("hasty_started");
            } catch (const std::runtime_error &) {
                vh::count("start_timeouts");
            }
            hasty.reset();
            // a subscriber that is gone holds nothing up
            Ev e;
            for (long i = 0, w = (long) (3 * N); i < w; ++i) {
                e.fill(c.rng, i);
                auto before = (long) pub.publicationStats.totalDiscardedEvents;
                pub.publish(e);
                bool ok = (long) pub.publicationStats.totalDiscardedEvents == before;
                VH_CHECK(ok || keep, "mux:held-by-the-dead", "an event was refused although no subscriber is left");
                if (keep) {
                    if (ok) vh::waitUntil("the remaining subscriber to be served", [&] { return seen.load() >= i; });
                    else usleep(50), --i;
                }
            }
        }
        vh::progress();
    }
    c.mark(vh::hashStr(c.desc.str()) + rounds);
    c.nontrivial = true;
}
} // namespace

VH_SCENARIO(mux_stream) {
    switch (c.rng.below(4)) {
    case 0: streamCase<2>(c); break;
    case 1: streamCase<4>(c); break;
    case 2: streamCase<16>(c); break;
    default: streamCase<128>(c);
    }
}
VH_SCENARIO(mux_capacity) {
    switch (c.rng.below(3)) {
    case 0: capacityCase<2>(c); break;
    case 1: capacityCase<8>(c); break;
    default: capacityCase<32>(c);
    }
}
VH_SCENARIO(mux_life) {
    if (c.rng.chance(1, 2)) lifeCase<4>(c);
    else lifeCase<32>(c);
}
