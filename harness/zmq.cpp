// C27: events over ZeroMQ, and environments shared over it. Uses the stand-in shim/zmq.hpp over libzmq.
#include "vh.hpp"
#include <cereal/types/vector.hpp>
#include <klepsydra/core/configuration_environment.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <klepsydra/serialization/void_caster_mapper.h>
#include <klepsydra/zmq_core/from_zmq_middleware_provider.h>
#include <klepsydra/zmq_core/to_zmq_middleware_provider.h>
#include <klepsydra/zmq_core/zmq_env.h>
#include <fstream>
#include <spdlog/spdlog.h>
using namespace kpsr;
using namespace kpsr::zmq_mdlw;

void zmq::shimMisuse(const char *what) { vh::violation("zmq:socket-shared", what); }

namespace {
struct Ev {
    long n = -1;
    std::vector<uint32_t> body;
    uint64_t sum = 0;
    static uint64_t compute(long n, const std::vector<uint32_t> &b) {
        uint64_t s = vh::mix(17, n);
        for (auto &x : b) s = vh::mix(s, x);
        return s;
    }
    void fill(vh::Rng &r, long k) {
        n = k;
        body.resize(r.below(r.chance(1, 6) ? 300 : 10));
        for (auto &x : body) x = (uint32_t) r.next();
        sum = compute(n, body);
    }
    bool whole() const { return compute(n, body) == sum; }
    template<class A> void serialize(A &a) { a(CEREAL_NVP(n), CEREAL_NVP(body), CEREAL_NVP(sum)); }
};
struct Pod {
    long n = -1;
    uint32_t body[6] = {0}; // no padding
    uint64_t sum = 0;
    uint64_t compute() const {
        uint64_t s = vh::mix(18, n);
        for (auto x : body) s = vh::mix(s, x);
        return s;
    }
    void fill(vh::Rng &r, long k) {
        n = k;
        for (auto &x : body) x = (uint32_t) r.next();
        sum = compute();
    }
    bool whole() const { return compute() == sum; }
};

struct Wire {                                  // one context with its sockets
    zmq::context_t ctx{0};
    std::vector<std::unique_ptr<zmq::socket_t>> sockets;
    static std::string address() { static std::atomic<int> n{0}; return "inproc://kpsr" + std::to_string(n++); }
    zmq::socket_t &pub(const std::string &addr) {
        sockets.emplace_back(new zmq::socket_t(ctx, ZMQ_PUB));
        auto &s = *sockets.back();
        s.setsockopt(ZMQ_SNDHWM, 0);
        s.bind(addr);
        return s;
    }
    zmq::socket_t &sub() {
        sockets.emplace_back(new zmq::socket_t(ctx, ZMQ_SUB));
        auto &s = *sockets.back();
        s.setsockopt(ZMQ_RCVHWM, 0);
        s.setsockopt(ZMQ_RCVTIMEO, -1);
        return s;
    }
};
void subscribe(zmq::socket_t &s, const std::string &t) { s.setsockopt(ZMQ_SUBSCRIBE, t.data(), t.size()); }
void rawSend(zmq::socket_t &s, const std::vector<std::string> &parts) {
    for (size_t i = 0; i < parts.size(); ++i) s.send(zmq::const_buffer(parts[i].data(), parts[i].size()), i + 1 < parts.size() ? zmq::send_flags::sndmore : zmq::send_flags::none);
}
// A publisher drops what nobody has subscribed to yet: send probes until one arrives.
void joinUp(zmq::socket_t &p, zmq::socket_t &s, const std::string &probe) {
    subscribe(s, probe);
    for (bool seen = false; !seen;) {
        rawSend(p, {probe, "probe"});
        zmq::pollitem_t it[] = {{s, 0, ZMQ_POLLIN, 0}};
        while (zmq_poll(it, 1, 2) > 0 && (it[0].revents & ZMQ_POLLIN)) {
            zmq::message_t m;
            s.recv(m);
            std::string t = m.to_string();
            while (m.more()) s.recv(m);
            if (t == probe) { seen = true; break; }
        }
    }
}

enum Format { json, binary, caster };
const char *names[] = {"json", "binary", "caster"};

// One topic of one format: where its events end.
template<class T> struct End {
    std::string topic;
    std::unique_ptr<EventEmitterMiddlewareProvider<T>> prov;
    std::vector<long> last;                      // per publishing thread
    std::atomic<long> seen{0};
    std::atomic<bool> closed{false};             // deliveries are a violation
    bool inOrder = true;
    std::function<void(const T &)> inside;
    explicit End(const std::string &t, int threads, int pool) : topic(t), prov(new EventEmitterMiddlewareProvider<T>(nullptr, "end " + t, pool, nullptr, nullptr)), last(threads, -1) {
        prov->getSubscriber()->registerListener("end", [this](const T &e) {
            VH_CHECK(!closed.load(std::memory_order_acquire), "zmq:delivered-while-stopped", "an event of topic '" << topic << "' was delivered after stopping or unregistering");
            VH_CHECK(e.whole(), "zmq:content", "an event of topic '" << topic << "' arrived damaged");
            long t = e.n / 1000000 % 1000, i = e.n % 1000000;
            VH_CHECK(t >= 0 && t < (long) last.size(), "zmq:content", "an event of topic '" << topic << "' arrived changed");
            if (inOrder) VH_CHECK(i == last[t] + 1, "zmq:order", "topic '" << topic << "', publisher " << t << ": after event " << last[t] << " came event " << i);
            else VH_CHECK(i > last[t], "zmq:order", "topic '" << topic << "', publisher " << t << ": after event " << last[t] << " came event " << i);
            last[t] = i;
            if (inside) inside(e);
            seen.fetch_add(1, std::memory_order_release);
            vh::progress();
        });
    }
};
template<class C> void startChannel(C &ch) {
    try { ch.start(); }
    catch (const std::runtime_error &) { vh::count("start_timeouts"); }
}
template<class T> void publishOne(Publisher<T> *p, vh::Rng &q, long n) {
    T e;
    e.fill(q, n);
    switch (q.below(3)) {
    case 0: p->publish(e); break;
    case 1: p->processAndPublish([&](T &x) { x = e; }); break;
    default: { std::shared_ptr<const T> s = std::make_shared<T>(e); p->publish(s); }
    }
}
std::string encodeEvent(Format f, const Ev &e) {
    std::string s;
    if (f == json) { Mapper<Ev, std::string>().toMiddleware(e, s); return s; }
    std::stringbuf b;
    Base base = &b;
    Mapper<Ev, Base>().toMiddleware(e, base);
    return b.str();
}
std::string encodeEvent(Format, const Pod &e) { return std::string((const char *) &e, sizeof e); }
template<class U, class T> Publisher<T> *channel(ToZMQMiddlewareProvider &to, const std::string &t, int pool);
template<> Publisher<Ev> *channel<std::string, Ev>(ToZMQMiddlewareProvider &to, const std::string &t, int pool) { return to.getJsonToMiddlewareChannel<Ev>(t, pool); }
template<> Publisher<Ev> *channel<Base, Ev>(ToZMQMiddlewareProvider &to, const std::string &t, int pool) { return to.getBinaryToMiddlewareChannel<Ev>(t, pool); }
template<> Publisher<Pod> *channel<std::vector<unsigned char>, Pod>(ToZMQMiddlewareProvider &to, const std::string &t, int pool) { return to.getVoidCasterToMiddlewareChannel<Pod>(t, pool); }
std::string encode(Format f, vh::Rng &q) {
    Ev e;
    e.fill(q, 999000077);                                            // no publisher of ours: whoever gets it sees it
    if (f == json) { std::string s; Mapper<Ev, std::string>().toMiddleware(e, s); return s; }
    if (f == binary) { std::stringbuf b; Mapper<Ev, Base>().toMiddleware(e, *std::make_unique<Base>(&b)); return b.str(); }
    return std::string(sizeof(Pod), 'x');
}
std::string damaged(Format f, vh::Rng &q) {
    std::string s = encode(f, q);
    switch (q.below(4)) {
    case 0: return "";
    case 1: return s.substr(0, q.below(std::min<size_t>(s.size(), 8)));
    case 2: return f == json ? "{\"value0\": [" : "x";
    default: return s.substr(0, s.size() / 2);
    }
}
// What other programs may send.
void hostile(zmq::socket_t &p, Format f, const std::vector<std::string> &topics, vh::Rng &q, long &sent) {
    ++sent;
    const std::string &t = topics[q.below(topics.size())];
    switch (q.below(9)) {
    case 8: {                                                        // any number of further parts
        std::vector<std::string> parts{t, damaged(f, q)};
        for (int n = (int) q.below(5); n > 0; --n) parts.push_back(q.chance(1, 2) ? "more" : "");
        parts.push_back(t);
        parts.push_back(encode(f, q));
        rawSend(p, parts);
        break;
    }
    case 5: rawSend(p, {t, damaged(f, q), t, encode(f, q)}); break;  // the further parts are no message
    case 6: rawSend(p, {t + "?", encode(f, q), t, encode(f, q)}); break;
    case 0: rawSend(p, {t}); break;                                  // no content
    case 1: rawSend(p, {t, damaged(f, q)}); break;
    case 2: rawSend(p, {t, damaged(f, q), "more", t}); break;        // more parts than expected
    case 3: rawSend(p, {t + "?", encode(f, q)}); break;              // a topic nobody registered
    case 4: rawSend(p, {t, ""}); break;
    default: rawSend(p, {t + "#", "", ""});
    }
}

template<class U, class T> struct Line {
    Wire &w;
    Format f;
    zmq::socket_t *sub;
    std::vector<zmq::socket_t *> pubs;
    std::vector<std::unique_ptr<ToZMQMiddlewareProvider>> to;
    std::unique_ptr<FromZmqChannel<U>> from;
    Line(Wire &w_, Format f_, const std::vector<std::string> &topics, int npubs, long period) : w(w_), f(f_) {
        sub = &w.sub();
        for (auto &t : topics) subscribe(*sub, t);
        for (int i = 0; i < npubs; ++i) {
            std::string a = Wire::address();
            pubs.push_back(&w.pub(a));
            sub->connect(a);
            joinUp(*pubs.back(), *sub, "~probe" + std::to_string(i));
            to.emplace_back(new ToZMQMiddlewareProvider(nullptr, *pubs.back()));
        }
        from = make(period);
    }
    std::unique_ptr<FromZmqChannel<U>> make(long period);
    Publisher<T> *publisher(int i, const std::string &topic, int pool);
};
template<> std::unique_ptr<FromZmqChannel<std::string>> Line<std::string, Ev>::make(long p) { return FromZmqMiddlewareProvider().getJsonFromMiddlewareChannel<Ev>(*sub, p); }
template<> std::unique_ptr<FromZmqChannel<Base>> Line<Base, Ev>::make(long p) { return FromZmqMiddlewareProvider().getBinaryFromMiddlewareChannel<Ev>(*sub, p); }
template<> std::unique_ptr<FromZmqChannel<std::vector<unsigned char>>> Line<std::vector<unsigned char>, Pod>::make(long p) { return FromZmqMiddlewareProvider().getVoidCasterFromMiddlewareChannel<Pod>(*sub, p); }
template<> Publisher<Ev> *Line<std::string, Ev>::publisher(int i, const std::string &t, int pool) { return to[i]->getJsonToMiddlewareChannel<Ev>(t, pool); }
template<> Publisher<Ev> *Line<Base, Ev>::publisher(int i, const std::string &t, int pool) { return to[i]->getBinaryToMiddlewareChannel<Ev>(t, pool); }
template<> Publisher<Pod> *Line<std::vector<unsigned char>, Pod>::publisher(int i, const std::string &t, int pool) { return to[i]->getVoidCasterToMiddlewareChannel<Pod>(t, pool); }

template<class U, class T> void stream(vh::Case &c, Format f) {
    vh::Rng &r = c.rng;
    static const char *all[] = {"a", "ab", "b", "weather/x"};
    std::vector<std::string> topics;
    int nt = (int) r.range(1, 4), np = (int) r.range(1, 3), threadsPer = (int) r.range(1, 2), per = (int) r.range(5, c.thorough ? 150 : 60);
    for (int i = 0; i < nt; ++i) topics.push_back(all[i]);
    bool attacked = r.chance(2, 3);
    int interrupts = (int) (r.chance(1, 2) ? r.below(6) : 0);
    c.desc << names[f] << ", " << nt << " topics, " << np << " sockets with " << threadsPer << " threads of " << per << (attacked ? ", hostile messages" : "") << ", " << interrupts << " interrupts";
    c.mark(f * 1000 + nt * 100 + np * 10 + threadsPer), c.mark(per), c.mark(attacked * 10 + interrupts);
    Wire w;
    Line<U, T> line(w, f, topics, np + 1, r.range(1, 10));                // the last socket belongs to somebody else
    zmq::socket_t &foreign = *line.pubs[np];
    std::vector<std::unique_ptr<End<T>>> ends;
    for (auto &t : topics) {
        ends.emplace_back(new End<T>(t, np * threadsPer, (int) r.below(4)));
        line.from->registerToTopic(t, ends.back()->prov->getPublisher());
    }
    std::vector<std::vector<Publisher<T> *>> pubs(np);
    for (int p = 0; p < np; ++p) for (auto &t : topics) {
        int pool = (int) r.below(4);
        pubs[p].push_back(line.publisher(p, t, pool));
        VH_CHECK(line.publisher(p, t, pool) == pubs[p].back(), "zmq:publisher", "asking twice for the publisher of a topic gives two");
    }
    uint64_t seed = r.next();
    long bad = 0;
    zmq::shimInterrupts() = interrupts;
    long before = zmq::shimInterrupted();
    {
        vh::WithNoise noise(c);
        bool late = r.chance(1, 4);
        if (!late) startChannel(*line.from);
        std::vector<std::thread> th;
        for (int p = 0; p < np; ++p) for (int k = 0; k < threadsPer; ++k) th.emplace_back([&, p, k] {
            vh::Rng q(seed + p * 10 + k);
            int me = p * threadsPer + k;
            std::vector<long> next(nt, 0);
            for (long i = 0; i < (long) per * nt; ++i) {
                int t = (int) q.below(nt);
                if (next[t] >= per) { t = 0; while (next[t] >= per) ++t; }
                publishOne(pubs[p][t], q, (long) me * 1000000 + next[t]++);
                vh::progress();
            }
        });
        if (attacked) th.emplace_back([&] {
            vh::Rng q(seed + 999);
            for (int i = 0; i < per; ++i) { hostile(foreign, f, topics, q, bad); if (q.chance(1, 4)) usleep(q.below(300)); vh::progress(); }
        });
        { vh::HarnessWait hw("publishers"); for (auto &t : th) t.join(); }
        if (late) startChannel(*line.from);
        for (auto &e : ends) vh::waitUntil("every event published over ZeroMQ to arrive", [&] { return e->seen.load(std::memory_order_acquire) >= (long) np * threadsPer * per; });
        line.from->stop();
        for (auto &e : ends) e->closed = true;
    }
    zmq::shimInterrupts() = 0;
    for (auto &e : ends) {
        VH_CHECK(e->seen == (long) np * threadsPer * per, "zmq:count", "topic '" << e->topic << "': " << e->seen << " events arrived of " << np * threadsPer * per);
        for (auto x : e->last) VH_CHECK(x == per - 1, "zmq:lost", "topic '" << e->topic << "': the last event that arrived is " << x);
    }
    line.from.reset();
    c.nontrivial = true;
    vh::count("zmq_events", (long) np * threadsPer * per * nt);
    vh::count(std::string(names[f]) + "_cases");
    vh::count("hostile_messages", bad);
    vh::count("interrupted_polls", zmq::shimInterrupted() - before);
    if (threadsPer > 1) vh::count("sockets_shared_by_publishers", np);
}

// Starting, stopping, unregistering, registering again and destroying while events flow.
template<class U, class T> void life(vh::Case &c, Format f) {
    vh::Rng &r = c.rng;
    int rounds = (int) r.range(1, 8);
    Wire w;
    std::vector<std::string> topics{"a", "b"};
    long period = r.range(1, 10);
    c.desc << names[f] << ", " << rounds << " rounds:";
    auto line = std::make_unique<Line<U, T>>(w, f, topics, 1, period);
    std::vector<std::unique_ptr<End<T>>> ends;
    std::vector<Publisher<T> *> pubs;
    std::vector<End<T> *> cur(2, nullptr);
    for (auto &t : topics) pubs.push_back(line->publisher(0, t, (int) r.below(3)));
    std::atomic<bool> quit{false};
    std::atomic<long> quota[2]{{0}, {0}};
    uint64_t seed = r.next();
    auto reg = [&](int t) {
        ends.emplace_back(new End<T>(topics[t], 1, (int) r.below(3)));
        ends.back()->inOrder = false;            // events may have passed while nobody was registered
        cur[t] = ends.back().get();
        line->from->registerToTopic(topics[t], cur[t]->prov->getPublisher());
    };
    reg(0), reg(1);
    long restarts = 0, again = 0, inside = 0, selfStops = 0;
    {
        vh::WithNoise noise(c);
        std::thread th([&] {
            vh::Rng q(seed);
            std::vector<long> next(2, 0);
            while (!quit.load()) {
                int t = (int) q.below(2);
                if (next[t] < quota[t].load()) {
                    publishOne(pubs[t], q, next[t]++);
                    if (q.chance(1, 3)) usleep(q.below(300));
                } else usleep(100);
            }
        });
        bool running = false;
        auto flows = [&](int t) {
            long more = 1 + (long) r.below(4), goal = cur[t]->seen.load() + more;
            quota[t].fetch_add(more);                            // published from now on: they arrive
            vh::waitUntil("events to flow over ZeroMQ again", [&] { return cur[t]->seen.load(std::memory_order_acquire) >= goal; });
        };
        for (int k = 0; k < rounds; ++k) {
            int op = (int) r.below(7);
            c.mark(op);
            for (auto &x : quota) x.fetch_add((long) r.below(30));
            switch (op) {
            case 0: c.desc << " start"; startChannel(*line->from); running = true; flows((int) r.below(2)); break;
            case 1: c.desc << " stop"; line->from->stop(); if (running) ++restarts; running = false; break;
            case 2: c.desc << " start-stop"; startChannel(*line->from); line->from->stop(); running = false; ++restarts; break;
            case 3: {
                int t = (int) r.below(2);
                c.desc << " reregister";
                line->from->unregisterFromTopic(topics[t]);
                cur[t]->closed.store(true, std::memory_order_release);
                reg(t);
                if (running) { flows(t); ++again; }
                break;
            }
            case 4: {                                            // a listener that unregisters its own topic
                if (!running) break;
                c.desc << " self-unregister";
                int t = (int) r.below(2);
                line->from->unregisterFromTopic(topics[t]);
                cur[t]->closed.store(true, std::memory_order_release);
                ends.emplace_back(new End<T>(topics[t], 1, 0));
                End<T> *e = cur[t] = ends.back().get();
                e->inOrder = false;
                auto *fr = line->from.get();
                std::string topic = topics[t];
                e->inside = [fr, topic, e](const T &) { fr->unregisterFromTopic(topic); e->closed.store(true, std::memory_order_release); };
                line->from->registerToTopic(topic, e->prov->getPublisher());
                quota[t].fetch_add(1);
                vh::waitUntil("a listener to unregister itself", [&] { return e->seen.load(std::memory_order_acquire) == 1; });
                reg(t);
                ++inside;
                flows(t);
                break;
            }
            case 5: {                                            // a listener that stops the receiver it is run by
                if (!running) break;
                c.desc << " self-stop";
                int t = (int) r.below(2);
                line->from->unregisterFromTopic(topics[t]);
                cur[t]->closed.store(true, std::memory_order_release);
                ends.emplace_back(new End<T>(topics[t], 1, 0));
                End<T> *e = cur[t] = ends.back().get();
                e->inOrder = false;
                auto *fr = line->from.get();
                bool startInside = r.chance(1, 2);
                auto done = std::make_shared<std::atomic<bool>>(false), wrong = std::make_shared<std::atomic<bool>>(false);
                e->inside = [fr, done, wrong, startInside](const T &) {
                    if (done->load()) return;
                    fr->stop();
                    if (startInside) try { fr->start(); *wrong = true; } catch (const std::runtime_error &) {}
                    *done = true;
                };
                line->from->registerToTopic(topics[t], e->prov->getPublisher());
                quota[t].fetch_add(1);
                vh::waitUntil("a listener to stop the receiver", [&] { return done->load(); });
                VH_CHECK(!wrong->load(), "zmq:started-from-own-thread", "a receiver being stopped by its own thread was started again by it");
                running = false;
                ++selfStops;
                {
                    vh::HarnessWait hw("stop of a receiver that a listener stopped");
                    int end = (int) r.below(3);
                    if (end == 0) { line->from->stop(); break; }
                    if (end == 1) usleep(r.below(400));
                    startChannel(*line->from);
                }
                running = true;
                flows(t);
                break;
            }
            default: {                                           // the same topic registered twice keeps its first publisher
                c.desc << " register-twice";
                int t = (int) r.below(2);
                ends.emplace_back(new End<T>(topics[t], 1, 0));
                ends.back()->closed = true;
                line->from->registerToTopic(topics[t], ends.back()->prov->getPublisher());
                if (running) flows(t);
            }
            }
            if (!running) {
                for (auto &e : cur) e->closed.store(true, std::memory_order_release);
                if (r.chance(1, 2)) usleep(r.below(500));
                for (auto &e : cur) e->closed.store(false, std::memory_order_release);
            }
        }
        if (r.chance(1, 2)) { line->from.reset(); for (auto &e : ends) e->closed = true; c.desc << " destroyed"; vh::count("zmq_destroyed", running); }
        quit = true;
        { vh::HarnessWait hw("publisher"); th.join(); }
        if (line->from) line->from->stop();
    }
    line->from.reset();
    c.nontrivial = rounds > 1;
    vh::count("zmq_restarts", restarts);
    vh::count("topics_registered_again", again);
    vh::count("unregistered_inside", inside);
    vh::count("stopped_inside", selfStops);
}
} // namespace

// What is sent is the topic and the encoded event, nothing else: other programs read it too.
template<class U, class T> void wire(vh::Case &c, Format f) {
    vh::Rng &r = c.rng;
    static const char *all[] = {"a", "ab", "a/longer/topic/than/a/short/string"};
    int nt = (int) r.range(1, 3), n = (int) r.range(20, c.thorough ? 400 : 120);
    c.desc << "on the wire: " << names[f] << ", " << nt << " topics, " << n << " events";
    c.mark(f * 10 + nt), c.mark(n);
    Wire w;
    std::string addr = Wire::address();
    zmq::socket_t &p = w.pub(addr), &s = w.sub();
    s.connect(addr);
    joinUp(p, s, "~probe");
    std::unique_ptr<ToZMQMiddlewareProvider> to(new ToZMQMiddlewareProvider(nullptr, p));
    std::vector<Publisher<T> *> pubs;
    for (int i = 0; i < nt; ++i) {
        subscribe(s, all[i]);
        pubs.push_back(channel<U, T>(*to, all[i], (int) r.below(4)));
    }
    for (bool seen = false; !seen;) {             // probes sent meanwhile, and until the subscriptions are in force
        rawSend(p, {all[nt - 1], "probe"});
        zmq::pollitem_t it[] = {{s, 0, ZMQ_POLLIN, 0}};
        while (zmq_poll(it, 1, 2) > 0) {
            zmq::message_t m;
            s.recv(m);
            seen |= m.to_string() == all[nt - 1];
            while (m.more()) s.recv(m);
        }
    }
    for (int i = 0; i < n; ++i) {
        int t = (int) r.below(nt);
        T e;
        e.fill(r, i);
        switch (r.below(3)) {
        case 0: pubs[t]->publish(e); break;
        case 1: pubs[t]->processAndPublish([&](T &x) { x = e; }); break;
        default: { std::shared_ptr<const T> sp = std::make_shared<T>(e); pubs[t]->publish(sp); }
        }
        std::vector<std::string> parts;
        for (bool more = true; more;) {
            zmq::pollitem_t it[] = {{s, 0, ZMQ_POLLIN, 0}};
            vh::waitUntil("a published event on the wire", [&] { return zmq_poll(it, 1, 20) > 0; });
            zmq::message_t m;
            s.recv(m);
            parts.push_back(m.to_string());
            more = m.more();
        }
        VH_CHECK(parts.size() == 2 && parts[0] == all[t], "zmq:framing", "event " << i << " was sent in " << parts.size() << " parts, the first being '" << parts[0] << "', for topic '" << all[t] << "'");
        std::string plain = encodeEvent(f, e);
        VH_CHECK(parts[1] == plain, "zmq:wire-content", "event " << i << " takes " << plain.size() << " bytes, " << parts[1].size() << " were sent" << (parts[1].compare(0, plain.size(), plain) ? ", different ones" : ""));
        vh::progress();
    }
    c.nontrivial = true;
    vh::count("messages_on_the_wire", n);
}
VH_SCENARIO(zmq_wire) {
    spdlog::set_level(spdlog::level::off);
    switch (c.rng.below(3)) {
    case 0: wire<std::string, Ev>(c, json); break;
    case 1: wire<Base, Ev>(c, binary); break;
    default: wire<std::vector<unsigned char>, Pod>(c, caster);
    }
}
VH_SCENARIO(zmq_stream) {
    spdlog::set_level(spdlog::level::off);
    switch (c.rng.below(3)) {
    case 0: stream<std::string, Ev>(c, json); break;
    case 1: stream<Base, Ev>(c, binary); break;
    default: stream<std::vector<unsigned char>, Pod>(c, caster);
    }
}
VH_SCENARIO(zmq_life) {
    spdlog::set_level(spdlog::level::off);
    switch (c.rng.below(3)) {
    case 0: life<std::string, Ev>(c, json); break;
    case 1: life<Base, Ev>(c, binary); break;
    default: life<std::vector<unsigned char>, Pod>(c, caster);
    }
}

// Environments with the same key follow each other; others do not.
VH_SCENARIO(zmq_env) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    int ne = (int) r.range(2, 3), sets = (int) r.range(3, 15);
    bool other = r.chance(1, 2), attacked = r.chance(2, 3), readers = r.chance(1, 2), twoSetters = r.chance(1, 3);
    int total = ne + other;
    static const char *keys[][2] = {{"shared", "other"}, {"shared", "share"}, {"shared", "shared2"}, {"shared", "Shared"}, {"shared", ""}};
    auto *pair = keys[r.below(5)];
    const std::string sharedKey = pair[0], otherKey = pair[1];
    ConfigurationEnvironment intruding;
    intruding.setPropertyInt("hostile", 666);
    const std::string intruder = intruding.exportEnvironment();
    c.desc << ne << " environments" << (other ? " and one of key '" + otherKey + "'" : "") << ", " << sets << " settings" << (attacked ? ", hostile messages" : "") << (readers ? ", readers" : "") << (twoSetters ? ", two setting threads" : "");
    Wire w;
    std::vector<std::string> addr;
    std::vector<zmq::socket_t *> pub, sub;
    for (int i = 0; i <= total; ++i) { addr.push_back(Wire::address()); pub.push_back(&w.pub(addr.back())); }   // the last one is foreign
    for (int i = 0; i < total; ++i) {
        sub.push_back(&w.sub());
        subscribe(*sub[i], "env");
        for (int k = 0; k <= total; ++k) {
            sub[i]->connect(addr[k]);
            joinUp(*pub[k], *sub[i], "~" + std::to_string(k));
            std::string p = "~" + std::to_string(k);
            sub[i]->setsockopt(ZMQ_UNSUBSCRIBE, p.data(), p.size());
        }
        zmq::pollitem_t it[] = {{*sub[i], 0, ZMQ_POLLIN, 0}};
        while (zmq_poll(it, 1, 0) > 0 && (it[0].revents & ZMQ_POLLIN)) { zmq::message_t m; do sub[i]->recv(m); while (m.more()); }
    }
    std::vector<std::unique_ptr<ConfigurationEnvironment>> owned;
    std::vector<std::unique_ptr<ZMQEnv>> env;
    long before = zmq::shimInterrupted();
    zmq::shimInterrupts() = (int) (r.chance(1, 2) ? r.below(5) : 0);
    long bad = 0, reads = 0, updates = 0;
    {
        vh::WithNoise noise(c);
        for (int i = 0; i < total; ++i) {
            std::string key = i < ne ? sharedKey : otherKey;
            if (r.chance(1, 2)) env.emplace_back(new ZMQEnv("", key, "env", (int) r.range(1, 10), *pub[i], *sub[i]));
            else {
                owned.emplace_back(new ConfigurationEnvironment());
                owned.back()->setPropertyString("kpsr_zmq_env_topic_name", "env");
                owned.back()->setPropertyString("kpsr_zmq_env_key", key);
                owned.back()->setPropertyInt("kpsr_zmq_env_poll_period", (int) r.range(1, 10));
                env.emplace_back(new ZMQEnv(owned.back().get(), *pub[i], *sub[i]));
            }
        }
        std::atomic<bool> quit{false};
        std::atomic<long> nread{0};
        std::vector<std::thread> th;
        uint64_t seed = r.next();
        if (readers) for (int i = 0; i < total; ++i) th.emplace_back([&, i] {
            vh::Rng q(seed + i);
            while (!quit.load()) {
                std::string s;
                int n;
                bool b;
                float f;
                switch (q.below(4)) {
                case 0: env[i]->getPropertyString("s" + std::to_string(q.below(4)), s, "none"); break;
                case 1: env[i]->getPropertyInt("i" + std::to_string(q.below(4)), n, -1); break;
                case 2: env[i]->getPropertyBool("b" + std::to_string(q.below(4)), b, false); break;
                default: env[i]->getPropertyFloat("f" + std::to_string(q.below(4)), f, -1);
                }
                nread.fetch_add(1);
                usleep(q.below(200));
            }
        });
        if (attacked) th.emplace_back([&] {
            vh::Rng q(seed + 50);
            Mapper<ZMQEnvironmentData, std::string> m;
            while (!quit.load()) {
                ++bad;
                switch (q.below(10)) {
                case 9: {
                    std::string s;
                    m.toMiddleware(ZMQEnvironmentData(sharedKey, intruder, 1), s);
                    std::vector<std::string> parts{"env", "not json"};
                    for (int n = (int) q.below(5); n > 0; --n) parts.push_back("more");
                    parts.push_back("env");
                    parts.push_back(s);
                    rawSend(*pub[total], parts);
                    break;
                }
                case 7: { std::string s; m.toMiddleware(ZMQEnvironmentData(sharedKey, intruder, 1), s); rawSend(*pub[total], {"env", "not json", "env", s}); break; }
                case 8: { std::string s, x; m.toMiddleware(ZMQEnvironmentData(sharedKey, intruder, 1), s); m.toMiddleware(ZMQEnvironmentData("somebody", intruder, 1), x); rawSend(*pub[total], {"env", x, "env", s}); break; }
                case 0: rawSend(*pub[total], {"env"}); break;
                case 1: rawSend(*pub[total], {"env", ""}); break;
                case 2: rawSend(*pub[total], {"env", "{\"value0\": {"}); break;
                case 3: rawSend(*pub[total], {"env", "not json", "and more"}); break;
                case 4: { std::string s; m.toMiddleware(ZMQEnvironmentData(sharedKey, "{\"IntProperties\": 7", 1), s); rawSend(*pub[total], {"env", s}); break; }
                case 5: { std::string s; m.toMiddleware(ZMQEnvironmentData("somebody", "{\"IntProperties\": {\"i0\": 666}}", 1), s); rawSend(*pub[total], {"env", s}); break; }
                default: rawSend(*pub[total], {"env2", "x"});
                }
                usleep(q.below(1500));
            }
        });
        std::map<std::string, std::string> ms;
        std::map<std::string, int> mi;
        std::map<std::string, bool> mb;
        std::map<std::string, float> mf;
        auto agree = [&](int by) {
            for (int i = 0; i < ne; ++i) {
                for (auto &x : ms) { std::string s; vh::waitUntil(("setting " + x.first + " by " + std::to_string(by) + " to " + std::to_string(i)).c_str(), [&] { return env[i]->getPropertyString(x.first, s, "none") && s == x.second; }); }
                for (auto &x : mi) { int s; vh::waitUntil(("setting " + x.first + " by " + std::to_string(by) + " to " + std::to_string(i)).c_str(), [&] { return env[i]->getPropertyInt(x.first, s, -1) && s == x.second; }); }
                for (auto &x : mb) { bool s; vh::waitUntil(("setting " + x.first + " by " + std::to_string(by) + " to " + std::to_string(i)).c_str(), [&] { return env[i]->getPropertyBool(x.first, s, false) && s == x.second; }); }
                for (auto &x : mf) { float s; vh::waitUntil(("setting " + x.first + " by " + std::to_string(by) + " to " + std::to_string(i)).c_str(), [&] { return env[i]->getPropertyFloat(x.first, s, -1) && s == x.second; }); }
                updates += i != by;
            }
            vh::progress();
        };
        for (int k = 0; k < sets; ++k) {
            int by = (int) r.below(ne), kind = (int) r.below(6);
            std::string n = std::to_string(r.below(4));
            bool serial = r.chance(1, 2), pre;                                   // without: the value has to change
            c.mark((by * 8 + kind) * 2 + serial);
            switch (kind) {
            case 0: { std::string v = "v" + std::to_string(k) + " \"x\""; env[by]->setPropertyString("s" + n, v); ms["s" + n] = v; break; }
            case 1: { int v = (int) r.range(-100000, 100000) * 20 + k; env[by]->setPropertyInt("i" + n, v); mi["i" + n] = v; break; }
            case 2: { pre = mb.count("b" + n); bool v = pre ? !mb["b" + n] : r.chance(1, 2); env[by]->setPropertyBool("b" + n, v); mb["b" + n] = v; break; }
            case 3: { float v = (float) (r.range(-1000, 1000) * 20 + k) / 8; env[by]->setPropertyFloat("f" + n, v); mf["f" + n] = v; break; }
            case 4: {
                ConfigurationEnvironment e;
                std::string kk = "l" + std::to_string(k), f = "e" + std::to_string(c.id) + ".json";
                e.setPropertyInt(kk, k + 7);
                e.setPropertyString(kk, "loaded " + kk);
                { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << e.exportEnvironment(); }
                VH_CHECK(env[by]->loadFile(f, ""), "zmqenv:load", "a file with new settings was refused");
                unlink(f.c_str());
                mi[kk] = k + 7, ms[kk] = "loaded " + kk;
                vh::count("files_loaded_into_environments");
                break;
            }
            default:
                serial = true;
                if (!twoSetters) break;
                int a = (int) r.below(1000), b = (int) r.below(1000);
                std::thread t([&] { env[by]->setPropertyInt("x", a); });
                env[by]->setPropertyInt("y", b);
                t.join();
                mi["x"] = a, mi["y"] = b;
                vh::count("concurrent_settings");
            }
            // One environment at a time changes something. An environment that already had the value set has also
            // received everything from this one once it has the serial number.
            if (serial) {
                env[by]->setPropertyInt("serial", k);
                mi["serial"] = k;
            } else vh::count("settings_followed_by_no_other");
            agree(by);
        }
        if (other) {
            env[ne]->setPropertyString("s0", "from the other");
            for (int k = 0; k < 30; ++k, usleep(700)) for (int i = 0; i < ne; ++i) {      // would have arrived by now, in general
                std::string s;
                int n;
                VH_CHECK(!env[i]->getPropertyString("s0", s, "none") || s != "from the other", "zmqenv:foreign-key", "a setting of an environment with another key arrived");
                for (auto &x : mi) VH_CHECK(env[i]->getPropertyInt(x.first, n, -1) && n == x.second, "zmqenv:foreign-key", "an environment with another key changed the setting '" << x.first << "'");
            }
            for (auto &x : mi) { int s; VH_CHECK(!env[ne]->getPropertyInt(x.first, s, -1), "zmqenv:foreign-key", "a setting reached an environment with another key"); }
            vh::count("environments_of_another_key");
        }
        quit = true;
        { vh::HarnessWait hw("readers"); for (auto &t : th) t.join(); }
        reads = nread;
        int hostileValue;
        for (auto &e : env) VH_CHECK(!e->getPropertyInt("hostile", hostileValue, -1), "zmqenv:hostile", "a setting from the further parts of a message was taken over");
        while (!env.empty()) env.pop_back();
    }
    zmq::shimInterrupts() = 0;
    c.nontrivial = updates > 0;
    vh::count("settings_propagated", updates);
    vh::count("environment_reads", reads);
    vh::count("hostile_environment_messages", bad);
    vh::count("interrupted_polls", zmq::shimInterrupted() - before);
}
