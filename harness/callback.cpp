// C11: request/reply. Every reply goes to the oldest pending request it belongs to, whose callback runs exactly once.
#include "vh.hpp"
#include <klepsydra/core/callback_handler.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <deque>
#include <spdlog/spdlog.h>
using namespace kpsr;

namespace {
struct Req { int key = 0; long uid = 0; std::string body; };
struct Rep { int key = 0; long uid = 0; std::string body; bool last = false; };
typedef CallbackHandler<Req, Rep> Handler;
typedef MultiThreadCallbackHandler<Req, Rep> SharedHandler;

// Sequential model with re-entrant callbacks and responders that answer at once.
struct World {
    struct Pending { int key; long uid; };
    vh::Rng &r;
    EventEmitterMiddlewareProvider<Req> requests;
    EventEmitterMiddlewareProvider<Rep> replies;
    std::unique_ptr<Handler> h;
    std::deque<Pending> pending;
    std::map<long, int> ran;
    std::vector<long> sent, received;
    long uid = 0, repUid = 0, budget, nested = 0, sync = 0, ignored = 0, total = 0, thrown = 0, multi = 0;
    int depth = 0, keys;
    long expectUid = -1, expectRep = -1;
    bool canThrow;
    World(vh::Rng &q, EventEmitterType t) : r(q), requests(nullptr, "request", 0, nullptr, nullptr, t), replies(nullptr, "reply", 0, nullptr, nullptr, t) {
        budget = r.range(5, 60);
        keys = (int) r.range(1, 6);
        canThrow = r.chance(1, 5);
    }
    void request() {
        if (--budget < 0) return;
        Req q;
        q.key = (int) r.below(keys);
        q.uid = ++uid;
        q.body = std::string(r.below(40), 'q');
        pending.push_back({q.key, q.uid});
        if (pending.size() > 1) ++multi;
        long me = q.uid;
        auto token = std::make_shared<std::string>("token " + std::to_string(me));
        h->requestAndReply(q, [this, me, token](const Rep &rep) { onCallback(me, rep, *token); });
    }
    void onRequest(const Req &q) {
        sent.push_back(q.uid);
        if (r.chance(1, 3)) { ++sync; Rep p; p.key = q.key; reply(p); }   // answered before the request returns
    }
    void reply(Rep p) {
        if (depth > 12) return;
        p.uid = ++repUid;
        p.body = std::string(r.below(40), 'r');
        auto it = pending.begin();
        while (it != pending.end() && it->key != p.key) ++it;
        long want = -1;
        if (it == pending.end()) ++ignored;
        else { want = it->uid; pending.erase(it); }
        long savedUid = expectUid, savedRep = expectRep;
        expectUid = want;
        expectRep = p.uid;
        long before = want < 0 ? 0 : ran[want];
        ++depth;
        try { replies.getPublisher()->publish(p); } catch (const std::runtime_error &) { ++thrown; }
        --depth;
        if (want >= 0) VH_CHECK(ran[want] == before + 1, "callback:not-run", "reply with key " << p.key << " did not run the callback of pending request " << want << " (ran " << ran[want] << " times)");
        expectUid = savedUid;
        expectRep = savedRep;
        ++total;
    }
    void onCallback(long me, const Rep &rep, const std::string &token) {
        VH_CHECK(++ran[me] == 1, "callback:twice", "callback of request " << me << " ran " << ran[me] << " times");
        VH_CHECK(me == expectUid, "callback:wrong", "reply " << rep.uid << " with key " << rep.key << " ran the callback of request " << me << ", expected " << expectUid);
        VH_CHECK(rep.uid == expectRep, "callback:reply", "callback was given reply " << rep.uid << " instead of " << expectRep);
        if (r.chance(1, 3)) { ++nested; for (int i = (int) r.range(1, 4); i > 0; --i) request(); }
        if (r.chance(1, 5)) { ++nested; Rep p; p.key = (int) r.below(keys); reply(p); }
        VH_CHECK(token == "token " + std::to_string(me), "callback:destroyed", "callback of request " << me << " was destroyed while running");
        if (canThrow && r.chance(1, 6)) throw std::runtime_error("callback");
    }
};
} // namespace

VH_SCENARIO(cb_model) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    EventEmitterType t = (EventEmitterType) r.below(3);
    World w(r, t);
    bool shared = r.chance(1, 2);
    auto corr = [](const Req &a, const Rep &b) { return a.key == b.key; };
    if (shared) w.h.reset(new SharedHandler("handler", w.requests.getPublisher(), w.replies.getSubscriber(), corr));
    else w.h.reset(new Handler("handler", w.requests.getPublisher(), w.replies.getSubscriber(), corr));
    w.requests.getSubscriber()->registerListener("server", [&](const Req &q) { w.onRequest(q); });
    int n = (int) r.range(4, c.thorough ? 80 : 40);
    for (int i = 0; i < n; ++i) {
        vh::progress();
        int op = (int) r.below(2);
        c.mark(op);
        if (op) w.request();
        else { Rep p; p.key = (int) r.below(w.keys + 1); w.reply(p); }
    }
    long left = (long) w.pending.size();
    w.budget = 0;
    if (r.chance(1, 2)) while (!w.pending.empty()) { Rep p; p.key = w.pending[r.below(w.pending.size())].key; w.reply(p); }
    std::vector<long> all;
    for (long i = 1; i <= w.uid; ++i) all.push_back(i);
    std::sort(w.sent.begin(), w.sent.end());
    VH_CHECK(w.sent == all, "callback:request-lost", w.uid << " requests made, " << w.sent.size() << " published");
    w.h.reset();
    Rep p;
    for (p.key = 0; p.key < w.keys; ++p.key) w.replies.getPublisher()->publish(p);   // nobody is there any more
    c.desc << (shared ? "shared" : "plain") << " handler, emitter " << t << ", " << w.uid << " requests, " << w.total << " replies, " << left << " left";
    c.mark(w.uid), c.mark(w.total);
    c.nontrivial = w.nested > 0 && w.uid > 1;
    vh::count("requests", w.uid);
    vh::count("replies_unmatched", w.ignored);
    vh::count("acts_inside_callbacks", w.nested);
    vh::count("answered_during_request", w.sync);
    vh::count("callbacks_that_threw", w.thrown);
    vh::count("several_pending", w.multi);
}

namespace {
// Requests travel to a server and back over a pair of middlewares.
struct Wire {
    virtual ~Wire() {}
    virtual Publisher<Req> *reqPub() = 0;
    virtual Subscriber<Req> *reqSub() = 0;
    virtual Publisher<Rep> *repPub() = 0;
    virtual Subscriber<Rep> *repSub() = 0;
    virtual void stop() = 0;
};
struct Direct : Wire {
    EventEmitterMiddlewareProvider<Req> a{nullptr, "request", 0, nullptr, nullptr};
    EventEmitterMiddlewareProvider<Rep> b{nullptr, "reply", 0, nullptr, nullptr};
    Publisher<Req> *reqPub() override { return a.getPublisher(); }
    Subscriber<Req> *reqSub() override { return a.getSubscriber(); }
    Publisher<Rep> *repPub() override { return b.getPublisher(); }
    Subscriber<Rep> *repSub() override { return b.getSubscriber(); }
    void stop() override {}
};
struct InMemory : Wire {
    mem::BasicMiddlewareProvider<Req> a{nullptr, "request", 8, 0, nullptr, nullptr, false};
    mem::BasicMiddlewareProvider<Rep> b{nullptr, "reply", 64, 0, nullptr, nullptr, false};
    Publisher<Req> *reqPub() override { return a.getPublisher(); }
    Subscriber<Req> *reqSub() override { return a.getSubscriber(); }
    Publisher<Rep> *repPub() override { return b.getPublisher(); }
    Subscriber<Rep> *repSub() override { return b.getSubscriber(); }
    InMemory() { a.start(); b.start(); }
    void stop() override { a.stop(); b.stop(); }
};
} // namespace

VH_SCENARIO(cb_threads) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    std::unique_ptr<Wire> w;
    int wire = (int) r.below(2);
    if (wire) w.reset(new InMemory); else w.reset(new Direct);
    int nt = (int) r.range(1, 4), per = (int) r.range(10, c.thorough ? 150 : 60), nr = (int) r.range(1, 3), syncPct = (int) r.below(100);
    int nestPct = wire ? 0 : (int) r.below(40);   // a callback on a middleware thread may not block on that middleware
    long maxUid = 0;
    std::atomic<long> uid{0};
    struct Slot { std::atomic<int> ran{0}; std::atomic<bool> asked{false}; };
    std::vector<Slot> slots((size_t) nt * per * 4 + 16);
    std::mutex qm;
    std::deque<Rep> todo;
    std::atomic<long> answered{0}, nested{0}, extra{0}, syncs{0};
    std::atomic<int> requesters{nt};
    SharedHandler h("shared", w->reqPub(), w->repSub(), [](const Req &a, const Rep &b) { return a.uid == b.uid; });
    std::function<void(vh::Rng &, int)> ask = [&](vh::Rng &q, int depth) {
        Req x;
        x.uid = uid.fetch_add(1, std::memory_order_relaxed);
        if (x.uid >= (long) slots.size()) return;
        x.key = (int) x.uid;
        x.body = std::to_string(x.uid * 31);
        long me = x.uid;
        slots[me].asked.store(true, std::memory_order_relaxed);
        bool nest = depth < 2 && (int) q.below(100) < nestPct;
        uint64_t seed = q.next();
        std::string token = x.body;
        h.requestAndReply(x, [&, me, nest, seed, depth, token](const Rep &p) {
            VH_CHECK(p.uid == me && p.body == token, "callback:wrong", "request " << me << " was given the reply to request " << p.uid);
            VH_CHECK(slots[me].ran.fetch_add(1) == 0, "callback:twice", "callback of request " << me << " ran twice");
            if (nest) { nested.fetch_add(1, std::memory_order_relaxed); vh::Rng z(seed); ask(z, depth + 1); }
            answered.fetch_add(1, std::memory_order_release);
            vh::progress();
        });
    };
    uint64_t serverSeed = r.next();
    std::atomic<uint64_t> serverN{0};
    w->reqSub()->registerListener("server", [&](const Req &x) {
        Rep p;
        p.uid = x.uid; p.key = x.key; p.body = x.body;
        VH_CHECK(x.body == std::to_string(x.uid * 31), "callback:request-content", "request " << x.uid << " arrived changed");
        uint64_t z = vh::mix(serverSeed, serverN.fetch_add(1, std::memory_order_relaxed));
        if ((int) (z % 100) < syncPct) { syncs.fetch_add(1, std::memory_order_relaxed); w->repPub()->publish(p); return; }
        std::lock_guard<std::mutex> g(qm);
        todo.push_back(p);
    });
    std::vector<uint64_t> seeds;
    for (int i = 0; i < nt + nr; ++i) seeds.push_back(r.next());
    {
        vh::WithNoise noise(c);
        vh::SpinStart go;
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
            vh::Rng q(seeds[t]);
            go.arrive();
            for (int i = 0; i < per; ++i) ask(q, 0);
            requesters.fetch_sub(1);
        });
        std::atomic<bool> finish{false};
        for (int t = 0; t < nr; ++t) ts.emplace_back([&, t] {
            vh::Rng q(seeds[nt + t]);
            go.arrive();
            while (!finish.load()) {
                Rep p;
                bool have = false;
                {
                    std::lock_guard<std::mutex> g(qm);
                    if (!todo.empty()) {
                        size_t at = q.below(todo.size());
                        p = todo[at];
                        todo.erase(todo.begin() + at);
                        have = true;
                    }
                }
                if (have) {
                    if (q.chance(1, 8)) { Rep x; x.uid = 1000000 + p.uid; extra.fetch_add(1, std::memory_order_relaxed); w->repPub()->publish(x); }
                    w->repPub()->publish(p);
                    if (q.chance(1, 8)) { extra.fetch_add(1, std::memory_order_relaxed); w->repPub()->publish(p); }  // answered twice
                } else { vh::HarnessWait hw("for requests to answer"); usleep(50); }
            }
        });
        go.release(nt + nr);
        {
            vh::waitUntil("every request was answered", [&] { return requesters.load() == 0 && answered.load(std::memory_order_acquire) == std::min(uid.load(), (long) slots.size()); });
            maxUid = std::min(uid.load(), (long) slots.size());
            finish = true;
        }
        for (auto &t : ts) t.join();
    }
    w->stop();
    for (long i = 0; i < maxUid; ++i) VH_CHECK(slots[i].ran == 1, "callback:count", "callback of request " << i << " ran " << slots[i].ran << " times");
    c.desc << (wire ? "in-memory" : "direct") << " middleware, " << nt << " requesting and " << nr << " answering threads, " << maxUid << " requests";
    c.mark(wire), c.mark(nt * 10 + nr), c.mark(maxUid);
    c.nontrivial = nt + nr > 2;
    vh::count("requests_concurrently", maxUid);
    vh::count("requests_from_callbacks", nested);
    vh::count("superfluous_replies", extra);
    vh::count("answered_during_request", syncs);
}
