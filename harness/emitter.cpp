// C04: every emitter against a sequential model.  C05: the thread-safe emitter under concurrency.
#include "vh.hpp"
#include "moncontainer.hpp"
#include <klepsydra/core/event_emitter_factory.h>
#include <klepsydra/core/event_emitter_subscriber.h>
#include <algorithm>
#include <spdlog/spdlog.h>
using namespace kpsr;

namespace {
typedef std::shared_ptr<const long> Ev;
const char *kSubs[] = {"alpha", "beta", "", "gamma delta"};

struct Rec {
    int uid;
    std::string sub, name;
    unsigned id = 0;
    bool once = false, alive = false;
    int bornAt = 0, diedAt = -1;
    long processed = 0, discarded = 0;
    std::weak_ptr<int> token;     // lives as long as the emitter keeps the callback
};
struct Delivery { int uid; long ev; };

// One emitter and what a reader of its documentation expects of it.
struct World {
    vh::Case &c;
    vh::Rng &r;
    EventEmitterType type;
    MonContainer box;
    Container *cont;
    std::shared_ptr<EventEmitterInterface<Ev>> em;
    std::vector<std::unique_ptr<Rec>> recs;
    std::vector<Delivery> log;
    int clock = 0, depth = 0;
    long nextEv = 1;
    int nameStyle = 0;
    bool reentrant, throwing;
    long nested = 0, delivered = 0, inCallback = 0;
    World(vh::Case &c_) : c(c_), r(c_.rng) {
        type = (EventEmitterType) r.below(3);
        cont = r.chance(2, 3) ? &box : nullptr;
        nameStyle = (int) r.below(4);
        reentrant = r.chance(1, 2);
        throwing = r.chance(1, 6);
        em = EventEmitterFactory::createEventEmitter<Ev>(type);
    }
    Rec *byId(unsigned id) {
        for (auto &p : recs) if (p->alive && p->id == id) return p.get();
        return nullptr;
    }
    bool blocked(const std::string &name) {
        for (auto &p : recs) if (p->alive && (type == UNSAFE_SINGLE || (type == UNSAFE_MULTI && p->name == name))) return true;
        return false;
    }
    Rec *pickAlive() {
        std::vector<Rec *> v;
        for (auto &p : recs) if (p->alive) v.push_back(p.get());
        return v.empty() ? nullptr : v[r.below(v.size())];
    }
    void kill(Rec *x) { x->alive = false; x->diedAt = ++clock; }
    std::function<void(const Ev &)> callback(int uid, std::shared_ptr<int> token) {
        return [this, uid, token](const Ev &e) {
            VH_CHECK(e && *token == uid, "emit:callback-corrupt", "listener called with a broken event or state");
            log.push_back({uid, *e});
            Rec *me = recs[uid].get();
            VH_CHECK(!me->once || me->processed == 0, "emit:once-twice", "a listener registered once ran again");
            ++me->processed;
            ++delivered;
            if (me->once && me->alive) kill(me);
            if (reentrant && depth < 3 && r.chance(1, 3)) {
                ++inCallback;
                int what = (int) r.below(8);
                if (what == 0) remove(me->alive && !me->once ? me : pickAlive());
                else if (what < 3) remove(pickAlive());
                else if (what < 5) add();
                else if (what == 5) { ++nested; emit(r.chance(1, 2) ? me->sub : kSubs[r.below(4)]); }
                else if (what == 6) stats();
                else if (r.chance(1, 3)) removeAll();
                VH_CHECK(*token == uid, "emit:callback-destroyed", "the listener that is running was destroyed");
            }
            if (throwing && r.chance(1, 8)) throw std::runtime_error("listener");
        };
    }
    void add() {
        auto rec = std::make_unique<Rec>();
        Rec *x = rec.get();
        x->uid = (int) recs.size();
        x->sub = kSubs[r.below(4)];
        x->name = vh::nameOf(nameStyle, "l", type == SAFE ? r.below(4) : r.below(8));
        x->once = r.chance(1, 4);
        recs.push_back(std::move(rec));
        auto token = std::make_shared<int>(x->uid);
        x->token = token;
        if (x->once && type != SAFE) {
            bool threw = false;
            try { em->once(x->sub, callback(x->uid, token)); } catch (std::invalid_argument &) { threw = true; }
            VH_CHECK(threw, "emit:once-unsupported", "an emitter without one-off listeners accepted one");
            return;
        }
        bool blk = blocked(x->name);
        if (x->once) {
            x->id = em->once(x->sub, callback(x->uid, token));
            // (the one-off listeners have no statistics)
        } else {
            unsigned id = em->on(cont, x->name, x->sub, callback(x->uid, token));
            if (blk) {
                Rec *old = byId(id);
                VH_CHECK(old && (type == UNSAFE_SINGLE || old->name == x->name), "emit:duplicate-id", "a listener registered twice got the id " << id << " of somebody else");
                return;
            }
            x->id = id;
        }
        VH_CHECK(!byId(x->id), "emit:id-in-use", "two registered listeners share the id " << x->id);
        x->alive = true;
        x->bornAt = ++clock;
    }
    void remove(Rec *x) {
        if (!x) return;
        kill(x);
        em->removeListener(cont, x->id);
    }
    void removeUnknown() {
        unsigned id = r.chance(1, 2) ? (unsigned) r.below(30) : (unsigned) r.next();
        if (byId(id)) return;
        bool threw = false;
        try { em->removeListener(cont, id); } catch (std::invalid_argument &) { threw = true; }
        VH_CHECK(threw == (type == SAFE), "emit:remove-unknown", "removing the unknown listener " << id << (threw ? " threw" : " did not throw"));
    }
    void removeAll() {
        for (auto &p : recs) if (p->alive) kill(p.get());
        em->removeAllListeners(cont);
    }
    void discard() {
        std::string s = kSubs[r.below(4)];
        for (auto &p : recs) if (p->alive && !p->once && p->sub == s) ++p->discarded;
        em->discardEvent(s);
    }
    void emit(const std::string &s) {
        long ev = nextEv++;
        int t0 = ++clock;
        size_t nrec = recs.size();
        std::vector<long> before(nrec);
        for (size_t i = 0; i < nrec; ++i) before[i] = recs[i]->processed;
        bool threw = false;
        ++depth;
        try { em->emitEvent(s, r.chance(1, 2) ? 1 : 0, std::make_shared<const long>(ev)); } catch (std::runtime_error &) { threw = true; }
        --depth;
        VH_CHECK(!threw || throwing, "emit:exception", "emitting threw although no listener did");
        int last = -1;
        std::map<int, int> got;
        for (auto &d : log) if (d.ev == ev) {
            ++got[d.uid];
            Rec *x = recs[d.uid].get();
            VH_CHECK(x->sub == s, "emit:wrong-subscriber", "an event for '" << s << "' reached a listener of '" << x->sub << "'");
            VH_CHECK(d.uid > last, "emit:order", "listener " << d.uid << " was called after listener " << last << " which registered later");
            last = d.uid;
        }
        for (auto &p : recs) {
            if (p->sub != s || p->bornAt == 0) continue;
            int n = got.count(p->uid) ? got[p->uid] : 0;
            bool atStart = p->bornAt < t0 && (p->diedAt < 0 || p->diedAt > t0);
            bool throughout = atStart && (p->once ? p->diedAt < 0 || n : p->diedAt < 0);
            bool never = !(p->bornAt < t0 ? (p->diedAt < 0 || p->diedAt > t0) : true);
            if (throughout && !threw) VH_CHECK(n == 1, "emit:missed", "a registered listener of '" << s << "' received the event " << n << " times");
            else if (never) VH_CHECK(n == 0, "emit:removed-called", "a listener received an event emitted after its removal");
            else VH_CHECK(n <= 1, "emit:twice", "a listener received one event " << n << " times");
        }
    }
    void stats() {
        for (auto &p : recs) {
            if (!p->alive) continue;
            auto st = em->getListenerStats(p->id);
            if (p->once) { VH_CHECK(!st, "emit:stats-once", "a one-off listener has statistics"); continue; }
            if (!cont) { if (type != SAFE) VH_CHECK(!st, "emit:stats-foreign", "listener " << p->id << " has statistics without a container: '" << st->name << "'"); }
            else VH_CHECK(st != nullptr, "emit:stats-missing", "listener " << p->id << " registered with a container has no statistics");
            if (!st) continue;
            VH_CHECK(st->name == p->sub + "_" + p->name, "emit:stats-foreign", "statistics of '" << p->sub << "_" << p->name << "' are those of '" << st->name << "'");
            if (!throwing && depth == 0)
                VH_CHECK(st->totalProcessed == p->processed && st->openMeasures == 0, "emit:stats-processed", "statistics say " << st->totalProcessed.load() << " processed, was " << p->processed);
            VH_CHECK(st->totalDiscardedEvents == p->discarded, "emit:stats-discarded", "statistics say " << st->totalDiscardedEvents.load() << " discarded, was " << p->discarded);
            if (cont) VH_CHECK(box.has(st.get()), "emit:not-attached", "statistics of a registered listener are not in the container");
        }
        unsigned id = (unsigned) r.below(40);
        if (!byId(id)) VH_CHECK(!em->getListenerStats(id), "emit:stats-unknown", "the unknown listener " << id << " has statistics");
        size_t want = 0;
        for (auto &p : recs) want += cont && p->alive && !p->once;
        VH_CHECK(box.subscriptions() == want, "emit:attached", "the container holds " << box.subscriptions() << " listeners, registered are " << want);
    }
};
} // namespace

VH_SCENARIO(emit_model)
{
    World w(c);
    auto &r = c.rng;
    int n = (int) r.range(5, c.thorough ? 120 : 50);
    c.desc << "emitter type " << w.type << (w.cont ? " with" : " without") << " container, reentrant " << w.reentrant << " throwing " << w.throwing << " ops " << n;
    c.mark(w.type * 8 + (w.cont != nullptr) * 4 + w.reentrant * 2 + w.throwing);
    for (int i = 0; i < n; ++i) {
        size_t op = r.below(20);
        c.mark(op);
        if (op < 6) w.add();
        else if (op < 8) w.remove(w.pickAlive());
        else if (op < 9) w.removeUnknown();
        else if (op < 10 && r.chance(1, 3)) w.removeAll();
        else if (op < 12) w.discard();
        else w.emit(kSubs[r.below(4)]);
        w.stats();
    }
    if (r.chance(1, 2)) { w.removeAll(); w.stats(); if (r.chance(1, 2)) w.removeAll(); }
    else if (w.cont) w.removeAll();
    w.em.reset();
    for (auto &p : w.recs) VH_CHECK(p->token.expired(), "emit:leak", "a destroyed emitter still keeps a callback");
    c.nontrivial = w.delivered > 0;
    vh::count("deliveries", w.delivered);
    vh::count("nested_emissions", w.nested);
    vh::count("acts_inside_listeners", w.inCallback);
    vh::count(w.type == SAFE ? "safe_cases" : w.type == UNSAFE_MULTI ? "multi_cases" : "single_cases");
}

// Named listeners through EventEmitterSubscriber, one or two subscribers of one emitter.
VH_SCENARIO(emit_subscriber)
{
    auto &r = c.rng;
    MonContainer box;
    Container *cont = r.chance(2, 3) ? &box : nullptr;
    EventEmitterType type = (EventEmitterType) r.below(3);
    bool own = r.chance(1, 2);
    c.desc << "subscriber over emitter type " << type << (cont ? " with" : " without") << " container" << (own ? ", own emitter" : "");
    c.mark(type * 4 + own * 2 + (cont != nullptr));
    typedef EventEmitterSubscriber<long> Sub;
    struct Open : Sub { using Sub::Sub; std::shared_ptr<EventEmitterInterface<Ev>> e() { return this->_eventEmitter; } };
    struct L { bool alive = false, ptr = false; long got = 0, want = 0, discarded = 0; };
    std::map<std::string, L> ls;
    long onceWant = 0, onceGot = 0, oncePending = 0, deliveries = 0;
    {
        auto em = EventEmitterFactory::createEventEmitter<Ev>(type);
        std::unique_ptr<Open> sub(own ? new Open(cont, type, "topic") : new Open(cont, em, "topic"));
        int n = (int) r.range(5, 60);
        for (int i = 0; i < n; ++i) {
            std::string name = "n" + std::to_string(r.below(4));
            size_t op = r.below(12);
            c.mark(op);
            size_t alive = 0;
            for (auto &p : ls) alive += p.second.alive;
            if (op < 3) {
                L &l = ls[name];
                if (type == SAFE && l.alive) continue;
                bool ignored = l.alive || (type == UNSAFE_SINGLE && alive);
                if (type == UNSAFE_SINGLE && ignored) continue;
                bool ptr = r.chance(1, 2);
                long *g = &l.got;
                if (ptr) sub->registerSharedPtrListener(name, [g, ignored](const Ev &e) { if (!ignored) *g += *e; });
                else sub->registerListener(name, [g, ignored](const long &e) { if (!ignored) *g += e; });
                if (!ignored) { l.alive = true; l.got = l.want = l.discarded = 0; }
            } else if (op < 5) {
                sub->removeListener(name);          // unknown names are ignored
                ls[name].alive = false;
            } else if (op < 6) {
                bool threw = false;
                try {
                    if (r.chance(1, 2)) sub->registerListener(name, nullptr); else sub->registerSharedPtrListener(name, nullptr);
                } catch (std::invalid_argument &) { threw = true; }
                VH_CHECK(threw, "sub:null-callback", "a null callback was accepted");
                threw = false;
                try { if (r.chance(1, 2)) sub->registerListenerOnce(nullptr); else sub->registerSharedPtrListenerOnce(nullptr); } catch (std::invalid_argument &) { threw = true; }
                VH_CHECK(threw, "sub:null-callback", "a null one-off callback was accepted");
            } else if (op < 7 && type == SAFE) {
                if (r.chance(1, 2)) sub->registerListenerOnce([&](const long &) { ++onceGot; }); else sub->registerSharedPtrListenerOnce([&](const Ev &) { ++onceGot; });
                ++oncePending;
            } else if (op < 8) {
                sub->e()->discardEvent("topic");
                for (auto &p : ls) p.second.discarded += p.second.alive;
            } else if (op < 9) {
                sub->e()->emitEvent("other", 0, std::make_shared<const long>(5));
            } else {
                long v = r.range(1, 1000);
                sub->e()->emitEvent("topic", 1, std::make_shared<const long>(v));
                ++deliveries;
                for (auto &p : ls) if (p.second.alive) p.second.want += v;
                onceWant += oncePending;
                oncePending = 0;
            }
            for (auto &p : ls) VH_CHECK(p.second.got == p.second.want, "sub:delivery", "listener '" << p.first << "' received a total of " << p.second.got << ", expected " << p.second.want);
            VH_CHECK(onceGot == onceWant, "sub:once", "one-off listeners ran " << onceGot << " times, expected " << onceWant);
            for (const char *q : {"n0", "n1", "n2", "n3", "never"}) {
                auto st = sub->getSubscriptionStats(q);
                bool al = ls.count(q) && ls[q].alive;
                if (!al) VH_CHECK(!st, "sub:stats-unknown", "the listener '" << q << "', which is not registered, has the statistics '" << st->name << "'");
                else if (cont) {
                    VH_CHECK(st && st->name == std::string("topic_") + q, "sub:stats", "listener '" << q << "' has " << (st ? "the statistics of " + st->name : "no statistics"));
                    VH_CHECK(st->totalDiscardedEvents == ls[q].discarded, "sub:stats-discarded", "statistics say " << st->totalDiscardedEvents.load() << " discarded, expected " << ls[q].discarded);
                }
            }
            size_t now = 0;
            for (auto &p : ls) now += p.second.alive;
            VH_CHECK(!cont || box.subscriptions() == now, "sub:attached", "the container holds " << box.subscriptions() << " listeners, " << now << " are registered");
        }
        sub.reset();
        if (cont) VH_CHECK(box.subscriptions() == 0, "sub:dangling", "the container keeps " << box.subscriptions() << " statistics of a destroyed subscriber");
        long before = 0, after = 0;
        for (auto &p : ls) before += p.second.got;
        if (!own) em->emitEvent("topic", 0, std::make_shared<const long>(1));
        for (auto &p : ls) after += p.second.got;
        VH_CHECK(before == after, "sub:delivery-after-destruction", "a listener of a destroyed subscriber was called");
    }
    c.nontrivial = deliveries > 0;
    vh::count("subscriber_emissions", deliveries);
}

// C05: several threads emit, register, remove and ask at once.
VH_SCENARIO(emit_threads)
{
    auto &r = c.rng;
    int emitters = (int) r.range(1, 3), changers = (int) r.range(1, 2);
    int N = c.thorough ? 150 : 60;
    MonContainer box;
    Container *cont = r.chance(1, 2) ? &box : nullptr;
    c.desc << emitters << " emitting threads, " << changers << " registering threads, " << N << " steps" << (cont ? ", container" : "");
    c.mark(emitters * 8 + changers * 2 + (cont != nullptr));
    struct Listener {
        std::atomic<long> calls{0};
        std::vector<std::atomic<int>> got;
        std::atomic<int64_t> bornMax{0}, diedMin{0};
        int64_t onReturn = 0, removeCall = INT64_MAX, removeReturn = INT64_MAX, onCall = 0;
        bool once = false;
        unsigned id = 0;
        long processed = 0;
        std::shared_ptr<SubscriptionStats> st;
        explicit Listener(size_t n) : got(n) {}
    };
    struct Emission { int64_t from = 0, to = 0; };
    size_t total = (size_t) emitters * N;
    std::vector<Emission> em(total);
    std::vector<std::vector<std::unique_ptr<Listener>>> all(changers);
    long processedTotal = 0, onceRun = 0, removedInFlight = 0;
    {
        SafeEventEmitter<Ev> e;
        uint64_t base = r.next();
        std::atomic<long> discards{0};
        std::atomic<int> gate{0};
        bool nested = r.chance(1, 3);
        vh::SpinStart go;
        {
            vh::WithNoise noise(c);
            std::vector<std::thread> th;
            for (int t = 0; t < emitters; ++t)
                th.emplace_back([&, t] {
                    vh::Rng q(base + t);
                    go.arrive();
                    for (int i = 0; i < N; ++i) {
                        size_t k = (size_t) t * N + i;
                        auto v = std::make_shared<const long>((long) k);
                        em[k].from = vh::now();
                        try { e.emitEvent("s", q.below(2), v); } catch (std::exception &x) { vh::violation("emit:exception", std::string("emitting threw: ") + x.what()); }
                        em[k].to = vh::now();
                        if (q.chance(1, 6)) { e.discardEvent("s"); discards++; }
                        if (q.chance(1, 6)) e.emitEvent("nobody", 0, v);
                        vh::progress();
                    }
                });
            for (int t = 0; t < changers; ++t)
                th.emplace_back([&, t] {
                    vh::Rng q(base + 100 + t);
                    go.arrive();
                    std::vector<Listener *> mine;
                    for (int i = 0; i < N / 2; ++i) {
                        if (mine.size() < 4 && q.chance(2, 3)) {
                            all[t].emplace_back(new Listener(total));
                            Listener *l = all[t].back().get();
                            l->once = q.chance(1, 3);
                            bool nest = nested && q.chance(1, 4);
                            auto cb = [l, &e, nest](const Ev &v) {
                                l->calls.fetch_add(1, std::memory_order_relaxed);
                                l->got[(size_t) *v].fetch_add(1, std::memory_order_relaxed);
                                if (nest) e.discardEvent("nobody");
                            };
                            l->onCall = vh::now();
                            l->id = l->once ? e.once("s", cb) : e.on(cont, "l" + std::to_string(t) + "_" + std::to_string(i), "s", cb);
                            l->onReturn = vh::now();
                            if (!l->once) { l->st = e.getListenerStats(l->id); VH_CHECK(l->st, "emit:stats-missing", "a registered listener has no statistics"); mine.push_back(l); }
                        } else if (!mine.empty()) {
                            size_t x = q.below(mine.size());
                            Listener *l = mine[x];
                            auto st = e.getListenerStats(l->id);
                            VH_CHECK(st == l->st, "emit:stats-foreign", "the statistics of a listener changed identity");
                            l->removeCall = vh::now();
                            e.removeListener(cont, l->id);
                            l->removeReturn = vh::now();
                            VH_CHECK(!e.getListenerStats(l->id), "emit:stats-unknown", "a removed listener has statistics");
                            mine.erase(mine.begin() + (long) x);
                        }
                        vh::progress();
                        if (q.chance(1, 4)) std::this_thread::yield();
                    }
                });
            go.release(emitters + changers);
            for (auto &t : th) t.join();
        }
        std::set<unsigned> ids;
        for (auto &v : all) for (auto &p : v) {
            Listener *l = p.get();
            VH_CHECK(ids.insert(l->id).second, "emit:id-in-use", "two listeners were given the id " << l->id);
            long calls = l->calls, must = 0;
            processedTotal += calls;
            if (l->once) {
                bool due = false;
                for (auto &x : em) due |= x.from > l->onReturn;
                VH_CHECK(calls <= 1, "emit:once-twice", "a one-off listener ran " << calls << " times");
                if (due) VH_CHECK(calls == 1, "emit:once-missed", "a one-off listener never ran although events were emitted after its registration");
                onceRun += calls;
                continue;
            }
            for (size_t k = 0; k < total; ++k) {
                int n = l->got[k];
                if (em[k].from > l->onReturn && em[k].to < l->removeCall) { ++must; VH_CHECK(n == 1, "emit:missed", "a registered listener received an event " << n << " times"); }
                else if (em[k].from > l->removeReturn || em[k].to < l->onCall) VH_CHECK(n == 0, "emit:removed-called", "a listener received an event emitted " << (em[k].to < l->onCall ? "before its registration" : "after its removal"));
                else { VH_CHECK(n <= 1, "emit:twice", "a listener received an event " << n << " times"); removedInFlight += n; }
            }
            VH_CHECK(l->st->totalProcessed == calls && l->st->openMeasures == 0, "emit:stats-processed", "statistics say " << l->st->totalProcessed.load() << ", the listener ran " << calls << " times");
            VH_CHECK(l->st->totalDiscardedEvents <= discards, "emit:stats-discarded", "more discarded than were reported");
        }
        size_t alive = 0;
        for (auto &v : all) for (auto &p : v) alive += !p->once && p->removeCall == INT64_MAX;
        if (cont) VH_CHECK(box.subscriptions() == alive, "emit:attached", "the container holds " << box.subscriptions() << " listeners, " << alive << " are registered");
        e.removeAllListeners(cont);
        VH_CHECK(box.subscriptions() == 0, "emit:attached", "listeners stay in the container after all were removed");
    }
    c.nontrivial = processedTotal > 0;
    vh::count("concurrent_deliveries", processedTotal);
    vh::count("one_off_runs", onceRun);
    vh::count("deliveries_racing_registration", removedInFlight);
}

// removeAllListeners and one-off registrations race with emissions.
VH_SCENARIO(emit_clear)
{
    auto &r = c.rng;
    int emitters = (int) r.range(1, 3), N = c.thorough ? 200 : 80;
    c.desc << emitters << " emitting threads while every listener is removed again and again";
    c.mark(emitters);
    SafeEventEmitter<Ev> e;
    MonContainer box;
    std::atomic<bool> stop{false};
    std::atomic<long> got{0};
    std::vector<std::shared_ptr<std::atomic<int>>> onceRuns;
    long cleared = 0;
    uint64_t base = r.next();
    vh::SpinStart go;
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> th;
        for (int t = 0; t < emitters; ++t)
            th.emplace_back([&] {
                go.arrive();
                auto v = std::make_shared<const long>(1);
                while (!stop.load(std::memory_order_relaxed)) {
                    try { e.emitEvent("s", 1, v); } catch (std::exception &x) { vh::violation("emit:exception", std::string("emitting threw: ") + x.what()); }
                    e.discardEvent("s");
                    vh::progress();
                }
            });
        go.release(emitters);
        vh::Rng q(base);
        for (int i = 0; i < N; ++i) {
            size_t k = 1 + q.below(4);
            for (size_t j = 0; j < k; ++j) {
                if (q.chance(1, 3)) {
                    auto n = std::make_shared<std::atomic<int>>(0);
                    onceRuns.push_back(n);
                    e.once("s", [n](const Ev &) { n->fetch_add(1, std::memory_order_relaxed); });
                } else {
                    auto token = std::make_shared<long>(5);
                    unsigned id = e.on(&box, "l", "s", [token, &got](const Ev &) { got.fetch_add(*token - 4, std::memory_order_relaxed); });
                    if (q.chance(1, 4)) e.removeListener(&box, id);
                }
            }
            if (q.chance(1, 2)) { e.removeAllListeners(&box); ++cleared; VH_CHECK(box.subscriptions() == 0, "emit:attached", "listeners stay in the container after all were removed"); }
            vh::progress();
        }
        e.removeAllListeners(&box);
        stop = true;
        for (auto &t : th) t.join();
    }
    for (auto &n : onceRuns) VH_CHECK(*n <= 1, "emit:once-twice", "a one-off listener ran " << *n << " times");
    long before = got;
    e.emitEvent("s", 0, std::make_shared<const long>(1));
    VH_CHECK(before == got, "emit:removed-called", "a listener was called after all were removed");
    c.nontrivial = before > 0;
    vh::count("clears", cleared);
}
