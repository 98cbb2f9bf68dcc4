// C02: pooled objects are owned exclusively.  C03: pooled publication keeps the content.
#include "vh.hpp"
#include <klepsydra/core/object_pool_publisher.h>
#include <klepsydra/core/smart_object_pool.h>

namespace {
std::atomic<long> gLive{0}, gMade{0};
thread_local std::set<const void *> *tBorn = nullptr;   // the events this thread has made and not destroyed, while somebody asks
struct Obj {
    long stamp = 0;
    long inits = 0;
    std::atomic<int> owner{-1};
    std::vector<int> body;
    int finalized = 0;
    Obj() : body(8, 0) { gLive.fetch_add(1, std::memory_order_relaxed); gMade.fetch_add(1, std::memory_order_relaxed); }
    ~Obj() { gLive.fetch_sub(1, std::memory_order_relaxed); }
    Obj(const Obj &) = delete;
    void write(long s) {
        stamp = s;
        for (auto &b : body) b = (int) s;
    }
    bool intact() const {
        for (auto b : body) if (b != (int) stamp) return false;
        return true;
    }
};
typedef kpsr::SmartObjectPool<Obj> Pool;

struct Msg {
    long id = 0;
    std::string text;
    std::vector<long> data;
    long inits = 0;
    Msg() { if (tBorn) tBorn->insert(this); gLive.fetch_add(1, std::memory_order_relaxed); gMade.fetch_add(1, std::memory_order_relaxed); }
    Msg(const Msg &o) : id(o.id), text(o.text), data(o.data), inits(o.inits) { if (tBorn) tBorn->insert(this); gLive.fetch_add(1, std::memory_order_relaxed); gMade.fetch_add(1, std::memory_order_relaxed); }
    Msg &operator=(const Msg &) = default;
    ~Msg() { if (tBorn) tBorn->erase(this); gLive.fetch_sub(1, std::memory_order_relaxed); }
    static Msg make(long id, vh::Rng &r) {
        Msg m;
        m.id = id;
        m.text = std::string(r.below(40), (char) ('a' + r.below(26))) + std::to_string(id);
        m.data.assign(r.below(12), id);
        return m;
    }
    bool same(const Msg &o) const { return id == o.id && text == o.text && data == o.data; }
};

struct CapturePublisher : kpsr::ObjectPoolPublisher<Msg> {
    using kpsr::ObjectPoolPublisher<Msg>::ObjectPoolPublisher;
    std::function<void(std::shared_ptr<const Msg>)> sink;
    void internalPublish(std::shared_ptr<const Msg> e) override { sink(e); }
    using kpsr::ObjectPoolPublisher<Msg>::internalPublish;
};
} // namespace

// Sequential agreement with a counter of objects out.
VH_SCENARIO(pool_model)
{
    auto &r = c.rng;
    int size = (int) r.range(1, r.chance(1, 4) ? 200 : 12);
    bool init = r.chance(2, 3), fin = r.chance(1, 2);
    long live0 = gLive.load();
    c.desc << "size " << size << " init " << init << " finalizer " << fin << " ops ";
    c.mark(size * 4 + init * 2 + fin);
    long finals = 0, fails = 0, inits = 0;
    std::vector<Pool::ptr_type> out;
    std::vector<std::shared_ptr<Obj>> shared;
    std::set<Obj *> known;
    {
        std::function<void(Obj &)> fi, ff;
        if (init) fi = [&](Obj &o) { o.inits++; ++inits; o.write(77); };
        if (fin) ff = [&](Obj &o) {
            VH_CHECK(++o.finalized == 1, "pool:finalized-twice", "finalizer ran twice on one object");
            ++finals;
        };
        Pool pool("pool", size, fi, ff);
        VH_CHECK(gLive.load() - live0 == size, "pool:object-count", "a pool of " << size << " made " << gLive.load() - live0 << " objects");
        if (init) VH_CHECK(inits == size, "pool:initializer-count", "initializer ran " << inits << " times for " << size << " objects");
        int steps = size * 4 + 60;
        long id = 100;
        int bias = 60;
        for (int i = 0; i < steps; ++i) {
            if (i % 30 == 0) bias = r.chance(1, 2) ? 85 : 25;
            if ((int) r.below(100) < bias) {
                size_t nout = out.size() + shared.size();
                bool threw = false;
                try {
                    auto p = pool.acquire();
                    Obj *o = p.get();
                    VH_CHECK(o != nullptr, "pool:null", "acquire returned nothing");
                    VH_CHECK(o->owner.exchange(1) == -1, "pool:double-owner", "an object already held is handed out again");
                    if (init) VH_CHECK(o->inits == 1, "pool:initializer-per-object", "object initialised " << o->inits << " times");
                    VH_CHECK(o->intact(), "pool:content", "object content changed while it was in the pool");
                    known.insert(o);
                    o->write(++id);
                    if (r.chance(1, 3)) shared.emplace_back(std::move(p)); else out.push_back(std::move(p));
                } catch (const std::out_of_range &) {
                    threw = true;
                }
                VH_CHECK(threw == ((int) nout == size), "pool:exhaustion", "acquire " << (threw ? "refused" : "succeeded") << " with " << nout << " of " << size << " out");
                if (threw) ++fails;
                VH_CHECK(pool.objectPoolFails == fails, "pool:fail-count", "failure count " << (long) pool.objectPoolFails << " expected " << fails);
            } else if (!out.empty() && r.chance(1, 2)) {
                size_t k = r.below(out.size());
                VH_CHECK(out[k]->intact(), "pool:scribbled", "a held object was modified by someone else");
                out[k]->owner.store(-1);
                std::swap(out[k], out.back());
                out.pop_back();
            } else if (!shared.empty()) {
                size_t k = r.below(shared.size());
                VH_CHECK(shared[k]->intact(), "pool:scribbled", "a held object was modified by someone else");
                auto copy = shared[k];
                std::swap(shared[k], shared.back());
                shared.pop_back();
                copy->owner.store(-1);
                copy.reset();
            }
            VH_CHECK(gLive.load() - live0 == size, "pool:leak-or-loss", "live objects " << gLive.load() - live0 << " for a pool of " << size);
        }
        VH_CHECK((int) known.size() <= size, "pool:too-many-objects", known.size() << " different objects from a pool of " << size);
    }
    // the pool is gone; what is still out stays usable
    long stillOut = (long) (out.size() + shared.size());
    VH_CHECK(gLive.load() - live0 == stillOut, "pool:destruction-count", gLive.load() - live0 << " objects alive after destruction, " << stillOut << " held");
    if (fin) VH_CHECK(finals == size - stillOut, "pool:finalizer-count", "finalizer ran " << finals << " times for " << size - stillOut << " objects in the pool");
    for (auto &p : out) { VH_CHECK(p->intact() && !p->finalized, "pool:outlived-content", "object that outlived its pool is damaged"); p->write(5); }
    for (auto &p : shared) VH_CHECK(p->intact() && !p->finalized, "pool:outlived-content", "object that outlived its pool is damaged");
    out.clear();
    shared.clear();
    VH_CHECK(gLive.load() == live0, "pool:leak", gLive.load() - live0 << " objects leaked");
    c.mark(fails); c.mark(stillOut);
    c.nontrivial = fails > 0 || stillOut > 0;
    vh::count("pool_exhaustions", fails);
    vh::count("objects_outliving_pool", stillOut);
}

// Many threads acquire, hold, hand over and release.
VH_SCENARIO(pool_stress)
{
    auto &r = c.rng;
    int size = (int) r.range(1, 10), T = (int) r.range(2, 6), N = c.thorough ? 3000 : 800;
    bool destroyWhileReleasing = r.chance(1, 2);
    c.desc << "size " << size << " threads " << T << " ops " << N << (destroyWhileReleasing ? " destroyed while objects are being returned" : "");
    c.mark(size * 100 + T * 2 + destroyWhileReleasing);
    long live0 = gLive.load();
    std::atomic<long> fails{0}, got{0};
    std::atomic<int> finals{0};
    uint64_t base = r.next();
    auto pool = std::make_unique<Pool>("pool", size, [](Obj &o) { o.inits++; o.write(1); }, [&](Obj &) { finals.fetch_add(1, std::memory_order_relaxed); });
    std::vector<std::vector<std::shared_ptr<Obj>>> kept(T);
    struct Slot { std::mutex m; std::shared_ptr<Obj> o; };
    std::vector<Slot> slots(2);
    auto check = [](Obj &o) { VH_CHECK(o.intact(), "pool:scribbled", "a held object was modified by someone else"); };
    {
        vh::WithNoise noise(c);
        vh::SpinStart go;
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                vh::Rng q(base + t);
                std::vector<std::shared_ptr<Obj>> mine;
                long f = 0, g = 0;
                go.arrive();
                auto drop = [&] {
                    size_t k = q.below(mine.size());
                    check(*mine[k]);
                    mine[k]->write((long) (t + 1) * 10000000 + 7);
                    mine[k]->owner.store(-1, std::memory_order_relaxed);
                    std::swap(mine[k], mine.back());
                    mine.pop_back();
                };
                for (int i = 0; i < N; ++i) {
                    int what = (int) q.below(10);
                    if (what < 5) {
                        try {
                            auto p = pool->acquire();
                            int o = p->owner.exchange(t, std::memory_order_relaxed);
                            VH_CHECK(o == -1, "pool:double-owner", "thread " << t << " acquired an object held by " << o);
                            VH_CHECK(p->inits == 1, "pool:initializer-per-object", "initialised " << p->inits << " times");
                            check(*p);
                            p->write((long) (t + 1) * 10000000 + i);
                            mine.emplace_back(std::move(p));
                            ++g;
                        } catch (const std::out_of_range &) {
                            ++f;
                        }
                    } else if (what < 9) {
                        if (!mine.empty()) drop();
                    } else if (!mine.empty()) {
                        // hand an object to another thread
                        std::shared_ptr<Obj> o = mine.back(), old;
                        mine.pop_back();
                        check(*o);
                        o->owner.store(100, std::memory_order_relaxed);
                        Slot &s = slots[q.below(slots.size())];
                        { std::lock_guard<std::mutex> l(s.m); old.swap(s.o); s.o = o; }
                        o.reset();
                        if (old) { check(*old); old->owner.store(t, std::memory_order_relaxed); mine.push_back(old); }
                    }
                    while ((int) mine.size() > 3) drop();
                }
                fails.fetch_add(f);
                got.fetch_add(g);
                kept[t] = std::move(mine);
            });
        go.release(T);
        for (auto &t : th) t.join();
        VH_CHECK(pool->objectPoolFails == fails.load(), "pool:fail-count", "pool counted " << (long) pool->objectPoolFails << " failed acquisitions, callers saw " << fails.load());
        for (auto &s : slots) if (s.o) { s.o->owner.store(0); kept[0].push_back(s.o); s.o.reset(); }
        long outN = 0;
        for (auto &k : kept) outN += (long) k.size();
        // exactly the objects that are not out can be acquired now
        {
            std::vector<Pool::ptr_type> rest;
            for (;;) {
                try { rest.push_back(pool->acquire()); } catch (const std::out_of_range &) { break; }
                VH_CHECK((int) rest.size() <= size, "pool:too-many-objects", "more than " << size << " objects");
            }
            VH_CHECK((long) rest.size() == size - outN, "pool:conservation", rest.size() << " objects available with " << outN << " of " << size << " out");
        }
        if (destroyWhileReleasing) {
            vh::SpinStart go2;
            std::vector<std::thread> rel;
            for (int t = 0; t < T; ++t)
                rel.emplace_back([&, t] {
                    go2.arrive();
                    for (auto &o : kept[t]) o.reset();
                });
            go2.release(T);
            if (r.chance(1, 2)) usleep((useconds_t) r.below(60));
            pool.reset();
            for (auto &t : rel) t.join();
            vh::count("destroyed_while_returning", outN > 0);
        } else {
            pool.reset();
            VH_CHECK(finals.load() == size - outN, "pool:finalizer-count", "finalizer ran " << finals.load() << " times for " << size - outN);
            for (auto &k : kept) for (auto &o : k) check(*o);
        }
    }
    kept.clear();
    slots.clear();
    slots.shrink_to_fit();
    VH_CHECK(gLive.load() == live0, "pool:leak", gLive.load() - live0 << " objects leaked or lost");
    vh::count("acquisitions", got.load());
    vh::count("failed_acquisitions", fails.load());
    c.nontrivial = got.load() > 0;
    c.mark(got.load() % 97);
}

// Whatever a publisher is given is what arrives, for as long as somebody holds it.
VH_SCENARIO(pub_content)
{
    auto &r = c.rng;
    int poolSize = r.chance(1, 4) ? 0 : (int) r.range(1, 8);
    bool custom = r.chance(1, 2), init = r.chance(1, 2);
    int T = r.chance(1, 2) ? 1 : (int) r.range(2, 4);
    int N = c.thorough ? 800 : 250;
    c.desc << "pool " << poolSize << " custom-cloner " << custom << " initializer " << init << " threads " << T << " publications " << N;
    c.mark(poolSize * 64 + custom * 32 + init * 16 + T);
    long live0 = gLive.load();
    {
        std::function<void(Msg &)> fi;
        std::function<void(const Msg &, Msg &)> fc;
        if (init) fi = [](Msg &m) { m.inits++; m.id = -1; m.text = "initialised"; m.data.assign(3, 7); };
        if (custom) fc = [](const Msg &a, Msg &b) { b.id = a.id; b.text = a.text; b.data = a.data; };
        std::set<const void *> pooled;
        tBorn = &pooled;
        CapturePublisher pub(nullptr, "pub", "TEST", poolSize, fi, fc);
        tBorn = nullptr;
        struct Held { std::shared_ptr<const Msg> got; Msg want; };
        struct PerThread { std::vector<Held> held; std::shared_ptr<const Msg> last; long made = 0, byRef = 0, byProc = 0, byPtr = 0; };
        std::vector<PerThread> per(T);
        static thread_local PerThread *me = nullptr;
        pub.sink = [](std::shared_ptr<const Msg> e) { me->last = e; };
        uint64_t base = r.next();
        size_t maxHeld = 1 + r.below(6);
        vh::SpinStart go;
        {
            vh::WithNoise noise(c);
            std::vector<std::thread> th;
            for (int t = 0; t < T; ++t)
                th.emplace_back([&, t] {
                    me = &per[t];
                    vh::Rng q(base + t);
                    go.arrive();
                    for (int i = 0; i < N; ++i) {
                        Msg want = Msg::make((long) (t + 1) * 1000000 + i, q);
                        me->last.reset();
                        Msg given = want;
                        bool fresh = false;     // the event is one that the initialiser had to prepare
                        const size_t how = q.below(3);
                        std::shared_ptr<const Msg> shared;
                        if (how == 2) shared = std::make_shared<Msg>(given);
                        switch (how) {
                        case 0: pub.publish(given); me->byRef++; fresh = init && custom; break;
                        case 1:
                            fresh = init;
                            if (init && q.chance(1, 3)) {   // a function that writes only part of the event finds the rest initialised
                                want.text = "initialised"; want.data.assign(3, 7);
                                pub.processAndPublish([&](Msg &m) { m.id = given.id; });
                                me->byProc++;
                                break;
                            }
                            pub.processAndPublish([&](Msg &m) { m.id = given.id; m.text = given.text; m.data = given.data; }); me->byProc++; break;
                        default: pub.publish(shared); me->byPtr++; VH_CHECK(me->last == shared, "pub:pointer-identity", "a shared event was replaced by another object");
                        }
                        me->made += how != 2 && !pooled.count(me->last.get());
                        given.text = "overwritten";
                        given.data.assign(20, -1);
                        VH_CHECK(me->last != nullptr, "pub:not-published", "nothing was published");
                        VH_CHECK(me->last->same(want), "pub:content", "published id " << me->last->id << " '" << me->last->text << "' expected id " << want.id << " '" << want.text << "'");
                        VH_CHECK(!fresh || me->last->inits > 0, "pub:not-initialised", "an event that the cloner or the function only fills in was published without having been initialised");
                        me->held.push_back({me->last, want});
                        while (me->held.size() > maxHeld) me->held.erase(me->held.begin() + (long) q.below(me->held.size()));
                        for (auto &h : me->held)
                            VH_CHECK(h.got->same(h.want), "pub:shared-buffer", "an event still held changed under a later publication: now id " << h.got->id << ", was " << h.want.id);
                    }
                    me->last.reset();
                });
            go.release(T);
            for (auto &t : th) t.join();
        }
        std::set<const Msg *> distinct;
        size_t heldN = 0;
        long created = 0, made = 0;
        for (auto &p : per) { for (auto &h : p.held) { distinct.insert(h.got.get()); ++heldN; } created += p.byRef + p.byProc; made += p.made; }
        VH_CHECK(distinct.size() == heldN, "pub:shared-buffer", "two held events share one object");
        long alloc = pub.publicationStats._totalEventAllocations;
        if (poolSize == 0) VH_CHECK(alloc == created, "pub:allocation-count", "counted " << alloc << " allocations for " << created << " events without a pool");
        else VH_CHECK(alloc >= poolSize && alloc <= poolSize + created, "pub:allocation-count", "counted " << alloc << " allocations, pool " << poolSize << ", events " << created);
        VH_CHECK(alloc == poolSize + made, "pub:allocation-count", "counted " << alloc << " allocations, the pool made " << poolSize << " events and the publications " << made);
        if (T == 1 && poolSize > (int) maxHeld + 1) VH_CHECK(alloc == poolSize, "pub:allocated-with-free-pool", "allocated " << alloc - poolSize << " events although the pool was never exhausted");
        vh::count("publications", (long long) N * T);
        vh::count("pool_overflow_allocations", poolSize ? alloc - poolSize : 0);
        per.clear();
        long poolLive = gLive.load() - live0;
        VH_CHECK(poolLive == poolSize, "pub:leak", "after all events were released " << poolLive << " objects are alive, pool " << poolSize);
    }
    VH_CHECK(gLive.load() == live0, "pub:leak", gLive.load() - live0 << " objects leaked after destruction");
    c.nontrivial = true;
}
