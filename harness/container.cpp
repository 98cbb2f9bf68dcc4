// C12: the container starts and stops what is attached to it, and nothing else; managed services follow the system events.
#include "vh.hpp"
#include "moncontainer.hpp"
#include <klepsydra/core/core_container.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <fmt/ostream.h>
#include <klepsydra/core/manage_service.h>
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/mem_core/concurrent_middleware_provider.h>
#include <klepsydra/sdk/service.h>
#include <spdlog/spdlog.h>
using namespace kpsr;

namespace {
struct Svc : Service {
    Svc(Container *c, const std::string &n) : Service(c, nullptr, n) {}
    void start() override {}
    void stop() override {}
    void execute() override {}
};
struct Env : Environment {
    bool getPropertyString(const std::string &, std::string &, const std::string &, const std::string &) const { return false; }
};
const char *kNames[] = {"a", "b", "", "a name", "b"};
enum Kind { SERVICE, FUNCTION, SERVICESTATS, PUBLICATION, SUBSCRIPTION };
// One object a user attaches.
struct Obj {
    Kind kind;
    std::unique_ptr<Svc> svc;
    std::unique_ptr<FunctionStats> st;
    FunctionStats *stats = nullptr;
    bool attached = false;
    bool byConstructor = false;
    long starts = 0, stops = 0;    // expected
    Obj(Kind k, const std::string &n, Container *ctor = nullptr) : kind(k) {
        switch (k) {
        case SERVICE: svc.reset(new Svc(ctor, n)); stats = &svc->serviceStats; byConstructor = ctor; break;
        case FUNCTION: st.reset(new FunctionStats(n)); break;
        case SERVICESTATS: st.reset(new ServiceStats(n)); break;
        case PUBLICATION: st.reset(new PublicationStats(n, "t")); break;
        case SUBSCRIPTION: st.reset(new SubscriptionStats(n, n, "t")); break;
        }
        if (st) stats = st.get();
    }
    void attach(Container &c) {
        switch (kind) {
        case SERVICE: c.attach(svc.get()); break;
        case FUNCTION: c.attach(st.get()); break;
        case SERVICESTATS: c.attach(static_cast<ServiceStats *>(st.get())); break;
        case PUBLICATION: c.attach(static_cast<PublicationStats *>(st.get())); break;
        case SUBSCRIPTION: c.attach(static_cast<SubscriptionStats *>(st.get())); break;
        }
    }
    void detach(Container &c) {
        switch (kind) {
        case SERVICE: c.detach(svc.get()); break;
        case FUNCTION: c.detach(st.get()); break;
        case SERVICESTATS: c.detach(static_cast<ServiceStats *>(st.get())); break;
        case PUBLICATION: c.detach(static_cast<PublicationStats *>(st.get())); break;
        case SUBSCRIPTION: c.detach(static_cast<SubscriptionStats *>(st.get())); break;
        }
    }
    std::string what() const {
        static const char *k[] = {"service", "function", "service statistics", "publication", "subscription"};
        return std::string(k[kind]) + " '" + stats->name + "'";
    }
};
} // namespace

VH_SCENARIO(container_model) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    std::string app = r.chance(1, 4) ? "" : "app " + std::to_string(r.below(100));
    Environment *env = r.chance(1, 2) ? reinterpret_cast<Environment *>(&c) : nullptr;
    std::unique_ptr<CoreContainer> box(new CoreContainer(env, app));
    VH_CHECK(box->getName() == app && box->getEnvironment() == env, "container:identity", "name or environment not what was given");
    std::vector<std::unique_ptr<Obj>> objs;
    bool running = false;
    int n = (int) r.range(5, c.thorough ? 80 : 40);
    long sames = 0, late = 0, freed = 0;
    std::set<std::string> names;
    for (int i = 0; i < n; ++i) {
        int op = (int) r.below(10);
        c.mark(op);
        if (op < 4) {
            Kind k = (Kind) r.below(5);
            std::string nm = kNames[r.below(5)];
            bool ctor = k == SERVICE && r.chance(1, 2);
            if (!names.insert(std::to_string(k) + nm).second) ++sames;
            objs.emplace_back(new Obj(k, nm, ctor ? box.get() : nullptr));
            Obj &o = *objs.back();
            if (!ctor) o.attach(*box);
            o.attached = true;
            if (running) { ++o.starts; ++late; }
            c.mark(k);
        } else if (op < 7 && !objs.empty()) {
            size_t at = r.below(objs.size());
            Obj &o = *objs[at];
            bool destroy = r.chance(1, 2);
            if (o.byConstructor && destroy) {          // a service detaches itself when it is destroyed
                objs.erase(objs.begin() + at);
                ++freed;
            } else {
                o.detach(*box);                        // detaching twice is harmless
                o.attached = false;
                if (destroy) { objs.erase(objs.begin() + at); ++freed; }
                else if (r.chance(1, 3) && !o.byConstructor) { o.attach(*box); o.attached = true; if (running) ++o.starts; }
            }
        } else if (op < 9) {
            running = r.chance(1, 2);
            if (running) box->start(); else box->stop();
            for (auto &o : objs) if (o->attached) ++(running ? o->starts : o->stops);
        } else {
            switch (r.below(5)) {
            case 0: box->attach((Service *) nullptr); box->detach((Service *) nullptr); break;
            case 1: box->attach((FunctionStats *) nullptr); box->detach((FunctionStats *) nullptr); break;
            case 2: box->attach((ServiceStats *) nullptr); break;
            case 3: box->attach((PublicationStats *) nullptr); box->detach((PublicationStats *) nullptr); break;
            default: box->attach((SubscriptionStats *) nullptr); box->detach((SubscriptionStats *) nullptr);
            }
        }
        for (auto &o : objs) {
            VH_CHECK(o->stats->startCalls == o->starts, "container:starts", o->what() << (o->attached ? " (attached)" : " (detached)") << " was started " << o->stats->startCalls << " times, expected " << o->starts);
            VH_CHECK(o->stats->stopCalls == o->stops, "container:stops", o->what() << (o->attached ? " (attached)" : " (detached)") << " was stopped " << o->stats->stopCalls << " times, expected " << o->stops);
            if (o->attached && running) VH_CHECK(o->stats->running, "container:not-running", o->what() << " is attached to a running container and not running");
        }
    }
    for (auto &o : objs) if (o->byConstructor) o.reset();   // services must not outlive their container
    box.reset();
    c.desc << n << " operations, " << objs.size() << " objects left, " << sames << " names used again";
    c.nontrivial = sames > 0 && freed > 0;
    vh::count("names_used_again", sames);
    vh::count("attached_while_running", late);
    vh::count("destroyed_after_detach", freed);
    vh::count("container_operations", n);
}

// Objects come and go in several threads while others start and stop the container.
VH_SCENARIO(container_threads) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    CoreContainer box(nullptr, "threads");
    int nt = (int) r.range(2, 4), rounds = (int) r.range(20, c.thorough ? 300 : 80), ns = (int) r.range(1, 2);
    bool kinds = r.chance(1, 2);
    c.desc << nt << " threads attaching, " << ns << " starting and stopping, " << rounds << " rounds" << (kinds ? "" : ", one kind");
    c.mark(nt * 10 + ns), c.mark(rounds);
    Kind only = (Kind) r.below(5);
    std::vector<std::vector<std::unique_ptr<Obj>>> left(nt);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < nt + ns; ++i) seeds.push_back(r.next());
    std::atomic<int> active{nt};
    std::atomic<long> toggles{0}, seen{0};
    {
        vh::WithNoise noise(c);
        vh::SpinStart go;
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
            vh::Rng q(seeds[t]);
            go.arrive();
            for (int i = 0; i < rounds; ++i) {
                Kind k = kinds ? (Kind) q.below(5) : only;
                std::unique_ptr<Obj> o(new Obj(k, kNames[q.below(5)]));
                o->attach(box);
                for (int y = (int) q.below(3); y > 0; --y) sched_yield();
                if (q.chance(3, 4)) {
                    o->detach(box);
                    int a = o->stats->startCalls, b = o->stats->stopCalls;
                    if (a + b) seen.fetch_add(1, std::memory_order_relaxed);
                    for (int y = (int) q.below(3); y > 0; --y) sched_yield();
                    VH_CHECK(o->stats->startCalls == a && o->stats->stopCalls == b, "container:after-detach", o->what() << " was started or stopped after it had been detached");
                    o.reset();
                } else
                    left[t].push_back(std::move(o));
                vh::progress();
            }
            active.fetch_sub(1);
        });
        for (int s = 0; s < ns; ++s) ts.emplace_back([&, s] {
            vh::Rng q(seeds[nt + s]);
            go.arrive();
            while (active.load()) {
                if (q.chance(1, 2)) box.start(); else box.stop();
                toggles.fetch_add(1, std::memory_order_relaxed);
                for (int y = (int) q.below(4); y > 0; --y) sched_yield();
            }
        });
        go.release(nt + ns);
        for (auto &t : ts) t.join();
    }
    long n = 0;
    for (int pass = 0; pass < 4; ++pass) {
        std::vector<std::pair<Obj *, int>> before;
        for (auto &v : left) for (auto &o : v) before.emplace_back(o.get(), pass % 2 ? o->stats->stopCalls.load() : o->stats->startCalls.load());
        if (pass % 2) box.stop(); else box.start();
        for (auto &p : before) {
            int now = pass % 2 ? p.first->stats->stopCalls.load() : p.first->stats->startCalls.load();
            VH_CHECK(now == p.second + 1, "container:lost", p.first->what() << " attached by one of several threads was " << (pass % 2 ? "stopped " : "started ") << now - p.second << " times by one call");
            VH_CHECK(p.first->stats->running == (pass % 2 == 0), "container:state", p.first->what() << " is not in the state of the container");
            ++n;
        }
    }
    c.nontrivial = toggles > 0 && n > 0;
    vh::count("attached_concurrently", (long) nt * rounds);
    vh::count("started_or_stopped_concurrently", seen);
    vh::count("container_toggles", toggles);
}

// What is attached while the container starts or stops ends up in the state of the container.
VH_SCENARIO(container_toggle) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    const int nt = (int) r.range(1, 3), rounds = (int) r.range(20, c.thorough ? 200 : 60), most = (int) r.range(1, 6);
    const bool kinds = r.chance(1, 2);
    const Kind only = (Kind) r.below(5);
    c.desc << nt << " threads attaching up to " << most << " objects each while another starts or stops, " << rounds << " rounds";
    c.mark(nt * 100 + most * 10 + (kinds ? 9 : only)); c.mark(rounds);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
    std::unique_ptr<CoreContainer> box;
    std::vector<std::vector<std::unique_ptr<Obj>>> objs(nt);
    std::atomic<int> round{0}, arrived{0};
    std::atomic<bool> over{false};
    long n = 0;
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
            vh::Rng q(seeds[t]);
            for (int k = 1;; ++k) {
                while (round.load() < k && !over.load()) sched_yield();
                if (over.load()) return;
                for (int i = (int) q.range(1, most); i; --i) {
                    objs[t].emplace_back(new Obj(kinds ? (Kind) q.below(5) : only, kNames[q.below(5)]));
                    objs[t].back()->attach(*box);
                    for (int y = (int) q.below(3); y > 0; --y) sched_yield();
                }
                arrived.fetch_add(1);
                vh::progress();
            }
        });
        for (int k = 1; k <= rounds; ++k) {
            for (auto &v : objs) v.clear();
            box.reset(new CoreContainer(nullptr, "toggle"));
            bool up = r.chance(2, 3);
            if (!up) box->start();
            arrived = 0;
            round = k;
            for (int y = (int) r.below(6); y > 0; --y) sched_yield();
            if (up) box->start(); else box->stop();
            { vh::HarnessWait w("threads attaching to a container"); while (arrived.load() < nt) sched_yield(); }
            for (auto &v : objs) for (auto &o : v) {
                VH_CHECK(o->stats->running == up, "container:toggle", o->what() << " was attached while the container was being " << (up ? "started" : "stopped") << " and is "
                         << (o->stats->running ? "running" : "not running"));
                ++n;
            }
        }
        over = true;
        for (auto &t : ts) t.join();
    }
    box.reset();
    c.nontrivial = true;
    vh::count("attached_while_toggled", n);
}

namespace {
struct Slave : ManagedService {
    std::vector<char> log;
    int runs = 0;
    bool throwing;
    Slave(Environment *e, Subscriber<SystemEventData> *s, const std::string &n, bool t) : ManagedService(e, s, n), throwing(t) {}
    void start() override { log.push_back('s'); }
    void stop() override { log.push_back('p'); }
    void execute() override { ++runs; }
};
} // namespace

VH_SCENARIO(managed_service) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    MonContainer mon;
    EventEmitterMiddlewareProvider<SystemEventData> prov(r.chance(1, 2) ? &mon : nullptr, "system", 0, nullptr, nullptr);
    Publisher<SystemEventData> *pub = prov.getPublisher();
    Subscriber<SystemEventData> *sub = prov.getSubscriber();
    struct S { std::unique_ptr<Slave> s; std::vector<char> want; bool slave, started = false; int runs = 0; };
    std::vector<S> all;
    int n = (int) r.range(5, 40), born = 0, died = 0, events = 0;
    for (int i = 0; i < n; ++i) {
        int op = (int) r.below(8);
        c.mark(op);
        if (op < 2) {
            S s;
            s.slave = r.chance(3, 4);
            s.s.reset(new Slave(nullptr, s.slave ? sub : nullptr, "service" + std::to_string(born++), false));
            all.push_back(std::move(s));
        } else if (op == 2 && !all.empty()) {
            all.erase(all.begin() + r.below(all.size()));
            ++died;
        } else if (op < 6) {
            SystemEventData e = (SystemEventData) r.below(3);
            pub->publish(e);
            ++events;
            for (auto &s : all) if (s.slave) {
                if (e == Start) { s.want.push_back('s'); s.started = true; }
                if (e == Stop) { s.want.push_back('p'); s.started = false; }
            }
        } else if (op == 6 && !all.empty()) {
            S &s = r.pick(all);
            if (r.chance(1, 2)) { s.s->startup(); s.started = true; s.want.push_back('s'); }
            else { s.s->shutdown(); s.started = false; s.want.push_back('p'); }
        } else
            for (auto &s : all) { s.s->runOnce(); if (s.started) ++s.runs; }
        for (auto &s : all) {
            VH_CHECK(s.s->log == s.want, "service:follow", (s.slave ? "slave " : "master ") << s.s->serviceStats.name << " did " << std::string(s.s->log.begin(), s.s->log.end())
                     << " expected " << std::string(s.want.begin(), s.want.end()));
            VH_CHECK(s.s->runs == s.runs, "service:runs", s.s->serviceStats.name << " executed " << s.s->runs << " times, expected " << s.runs);
        }
    }
    c.desc << born << " services, " << died << " destroyed, " << events << " system events";
    c.nontrivial = died > 0 && events > 0;
    vh::count("system_events", events);
    vh::count("services_destroyed", died);
}

// Everything the library attaches to a container is detached when it goes away.
namespace {
struct Seen : CoreContainer {
    Seen() : CoreContainer(nullptr, "components") {}
    size_t held() { return _managedServices.size() + _functionStats.size() + _serviceStats.size() + _publicationStats.size() + _subscriptionStats.size(); }
};
struct Part { virtual ~Part() {} virtual void use(vh::Rng &) = 0; };
struct EmitterPart : Part {
    EventEmitterMiddlewareProvider<std::string> p;
    long got = 0;
    EmitterPart(Container *c, vh::Rng &r) : p(c, "emitter", (int) r.below(3), nullptr, nullptr) {}
    void use(vh::Rng &r) override {
        std::string n = "l" + std::to_string(r.below(3));
        switch (r.below(4)) {
        case 0: p.getSubscriber()->registerListener(n, [this](const std::string &) { ++got; }); break;
        case 1: p.getSubscriber()->registerListenerOnce([this](const std::string &) { ++got; }); break;
        case 2: p.getSubscriber()->removeListener(n); break;
        default: p.getPublisher()->publish("x");
        }
    }
};
template<class P> struct MemPart : Part {
    P p;
    std::atomic<long> got{0};
    bool up = false;
    int queued = 0;                       // at most: publishing blocks when the queue is full and nobody takes from it
    template<class... A> explicit MemPart(A &&...a) : p(std::forward<A>(a)...) {}
    ~MemPart() { if (up) p.stop(); }
    void use(vh::Rng &r) override {
        std::string n = "l" + std::to_string(r.below(3));
        switch (r.below(6)) {
        case 0: p.getSubscriber()->registerListener(n, [this](const std::string &) { ++got; }); break;
        case 1: p.getSubscriber()->registerListenerOnce([this](const std::string &) { ++got; }); break;
        case 2: p.getSubscriber()->removeListener(n); break;
        case 3: if (up) p.stop(); else p.start(); up = !up; queued = 4; break;
        default: if (up || queued++ < 4) p.getPublisher()->publish("x");
        }
    }
};
struct LoopPart : Part {
    high_performance::EventLoopMiddlewareProvider<8> p;
    std::atomic<long> got{0};
    bool up = false;
    LoopPart(Container *c, vh::Rng &r, Container *later) : p(c) {
        if (r.chance(1, 2)) p.getScheduler(r.chance(1, 2) ? "" : "sched");
        if (r.chance(1, 2)) p.setContainer(later);
        if (r.chance(1, 4)) p.setContainer(later);
    }
    ~LoopPart() { if (up) p.stop(); }
    void use(vh::Rng &r) override {
        std::string n = "l" + std::to_string(r.below(3)), e = r.chance(1, 2) ? "one" : "two";
        switch (r.below(6)) {
        case 0: p.getSubscriber<std::string>(e)->registerListener(n, [this](const std::string &) { ++got; }); break;
        case 1: p.getScheduler()->startScheduledTask("t" + n, 100, false, [this] { ++got; }); break;
        case 2: p.getSubscriber<std::string>(e)->removeListener(n); break;
        case 3: if (up) p.stop(); else p.start(); up = !up; break;
        default: p.getPublisher<std::string>(e, 0, nullptr, nullptr)->publish("x");
        }
    }
};
struct MuxPart : Part {
    high_performance::DataMultiplexerMiddlewareProvider<std::string, 8> p;
    std::atomic<long> got{0};
    int subs = 0;
    MuxPart(Container *c, vh::Rng &r, Container *later) : p(c, "mux") { if (r.chance(1, 2)) p.setContainer(later); }
    void use(vh::Rng &r) override {
        std::string n = "l" + std::to_string(r.below(2)), e = r.chance(1, 2) ? "one" : "two";
        switch (r.below(4)) {
        case 0: p.getSubscriber(e)->registerListener(n, [this](const std::string &) { ++got; }); break;
        case 1: p.getSubscriber(e)->removeListener(n); break;
        default: p.getPublisher()->publish("x");
        }
    }
};
std::unique_ptr<Part> makePart(vh::Rng &r, Container *box) {
    bool later = r.chance(1, 3);
    Container *c = later ? nullptr : box;
    switch (r.below(6)) {
    case 0: return std::unique_ptr<Part>(new EmitterPart(box, r));
    case 1: return std::unique_ptr<Part>(new MemPart<mem::BasicMiddlewareProvider<std::string>>(box, "basic", 4, (int) r.below(3), nullptr, nullptr, false));
    case 2: return std::unique_ptr<Part>(new MemPart<mem::ConcurrentMiddlewareProvider<std::string>>(box, "concurrent", 4, (int) r.below(3), nullptr, nullptr, true, 1000));
    case 3: case 4: return std::unique_ptr<Part>(new LoopPart(c, r, box));
    default: return std::unique_ptr<Part>(new MuxPart(c, r, box));
    }
}
} // namespace

// An event loop with a scheduler moves from one container to the next, taking along what it put there.
VH_SCENARIO(container_moves)
{
    auto &r = c.rng;
    Seen a, b, d;
    Seen *boxes[] = {&a, &b, &d};
    Seen *at = r.chance(1, 4) ? nullptr : &a;
    int moves = (int) r.range(1, 5);
    c.desc << "event loop with a scheduler, " << moves << " moves:";
    {
        high_performance::EventLoopMiddlewareProvider<8> p(at);
        p.getScheduler(r.chance(1, 2) ? "" : "sched");
        size_t brought = at ? at->held() : 0;
        bool known = at != nullptr;
        for (int i = 0; i < moves; ++i) {
            bool ran = r.chance(1, 3);
            if (ran) {
                std::atomic<bool> done{false};
                p.start();
                p.getScheduler()->startScheduledTask("t", 10, false, [&] { done = true; });
                vh::waitUntil("a scheduled task", [&] { return done.load(); });
                p.stop();
            }
            Seen *to = r.chance(1, 6) ? nullptr : boxes[r.below(3)];
            size_t before = at ? at->held() : 0;
            c.mark((to ? (to == &a ? 0 : to == &b ? 1 : 2) : 7) * 4 + ran); c.mark(before);
            c.desc << ' ' << (to ? std::string(1, to == &a ? 'a' : to == &b ? 'b' : 'd') : "none") << (ran ? " (ran)" : "");
            p.setContainer(to);
            if (at && at != to) VH_CHECK(at->held() == 0, "container:moved-away", at->held() << " statistics objects of an event loop stayed in the container it has left");
            if (to) {
                if (known && brought && to != at) VH_CHECK(to->held() == brought, "container:moved-to", "an event loop that had " << brought << " statistics objects in its first container has " << to->held() << " in the next");
                if (!known || to == at) { brought = to->held(); known = true; }
            }
            at = to;
        }
        c.nontrivial = brought > 0;
    }
    for (Seen *x : boxes) VH_CHECK(x->held() == 0, "container:left", x->held() << " statistics objects still attached after the event loop has gone");
    vh::count("moves_between_containers", moves);
}

VH_SCENARIO(container_components) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    Seen box;
    std::vector<std::unique_ptr<Part>> parts;
    int n = (int) r.range(4, 30), made = 0;
    long most = 0;
    for (int i = 0; i < n; ++i) {
        int op = (int) r.below(6);
        c.mark(op);
        if (op == 0 || parts.empty()) { parts.push_back(makePart(r, &box)); ++made; }
        else if (op == 1) parts.erase(parts.begin() + r.below(parts.size()));
        else if (op == 2) { if (r.chance(1, 2)) box.start(); else box.stop(); }
        else r.pick(parts)->use(r);
        most = std::max(most, (long) box.held());
    }
    while (!parts.empty()) {
        parts.erase(parts.begin() + r.below(parts.size()));
        box.start();
    }
    VH_CHECK(box.held() == 0, "container:left", box.held() << " statistics objects still attached after everything that attached them has gone");
    box.stop();
    c.desc << made << " middlewares, at most " << most << " objects attached";
    c.nontrivial = most > 2;
    vh::count("middlewares_made", made);
    vh::countMax("objects_attached_at_once", most);
}
