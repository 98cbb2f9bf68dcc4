// C23: serialised events come back as they were; damaged messages are refused.
#include "vh.hpp"
#include <cereal/types/map.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
#include <cmath>
#include <klepsydra/core/from_middleware_channel.h>
#include <klepsydra/core/non_copying_stream_buffer.h>
#include <klepsydra/core/to_middleware_channel.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/identity_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <klepsydra/serialization/void_caster_mapper.h>
#include <limits>

namespace {
enum class Kind { a = 0, b = -5, c = 1000 };
struct Inner {
    int16_t x = 0;
    std::string s;
    bool operator==(const Inner &o) const { return x == o.x && s == o.s; }
    template<class A> void serialize(A &a) { a(CEREAL_NVP(x), CEREAL_NVP(s)); }
};
struct Doc {
    int i = 0;
    uint64_t u = 0;
    int64_t l = 0;
    float f = 0;
    double d = 0;
    bool b = false;
    Kind k = Kind::a;
    std::string s;
    std::vector<int> v;
    std::vector<double> vd;
    std::vector<Inner> inner;
    std::map<std::string, int> m;
    std::shared_ptr<Inner> p;
    bool operator==(const Doc &o) const {
        auto same = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
        if (vd.size() != o.vd.size()) return false;
        for (size_t q = 0; q < vd.size(); ++q) if (!same(vd[q], o.vd[q])) return false;
        return i == o.i && u == o.u && l == o.l && same(f, o.f) && same(d, o.d) && b == o.b && k == o.k && s == o.s && v == o.v && inner == o.inner && m == o.m &&
               !p == !o.p && (!p || *p == *o.p);
    }
    template<class A> void serialize(A &a) {
        a(CEREAL_NVP(i), CEREAL_NVP(u), CEREAL_NVP(l), CEREAL_NVP(f), CEREAL_NVP(d), CEREAL_NVP(b), CEREAL_NVP(k), CEREAL_NVP(s), CEREAL_NVP(v), CEREAL_NVP(vd),
          CEREAL_NVP(inner), CEREAL_NVP(m), CEREAL_NVP(p));
    }
};
struct Pod {
    int id;
    float f;
    double d;
    char name[17];
    uint64_t u[3];
};
template<size_t N> struct Blob { unsigned char c[N]; };

std::string text(vh::Rng &r, bool nul) {
    std::string s;
    int kind = (int) r.below(4);
    static const char *utf[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x9a\x80", "\"", "\\", "/", "\n", "\t", "{", "}", " "};
    for (size_t n = r.below(30); n; --n) {
        if (kind == 0) s += (char) ('a' + r.below(26));
        else if (kind == 1) s += utf[r.below(11)];
        else if (kind == 2) s += (char) r.range(1, 127);
        else s += (char) r.range(nul ? 0 : 1, 127);
    }
    return s;
}
double dbl(vh::Rng &r) {
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return -0.0;
    case 2: return (double) r.range(-1000, 1000);
    case 3: return std::numeric_limits<double>::max();
    case 4: return std::numeric_limits<double>::denorm_min() * (double) r.below(100);
    case 5: return std::ldexp(r.unit() - 0.5, (int) r.range(-300, 300));
    case 6: return 1.0 / 3 * (double) r.range(1, 99);
    default: return r.unit();
    }
}
Inner inner(vh::Rng &r, bool nul) {
    Inner i;
    i.x = (int16_t) r.next();
    i.s = text(r, nul);
    return i;
}
std::atomic<long> largeEvents{0};
Doc doc(vh::Rng &r, bool nul) {
    Doc x;
    x.i = r.chance(1, 8) ? INT32_MIN : (int) r.next();
    x.u = r.chance(1, 8) ? UINT64_MAX : r.next();
    x.l = r.chance(1, 8) ? INT64_MIN : (int64_t) r.next();
    x.f = (float) (r.unit() * 1e6 - 5e5);
    x.d = dbl(r);
    x.b = r.chance(1, 2);
    x.k = r.chance(1, 2) ? Kind::b : Kind::c;
    x.s = text(r, nul);
    for (size_t n = r.below(20); n; --n) x.v.push_back((int) r.next());
    for (size_t n = r.below(6); n; --n) x.vd.push_back(dbl(r));
    for (size_t n = r.below(6); n; --n) x.inner.push_back(inner(r, nul));
    for (size_t n = r.below(6); n; --n) x.m[text(r, false)] = (int) r.next();
    if (r.chance(1, 2)) x.p = std::make_shared<Inner>(inner(r, nul));
    if (r.chance(1, 60)) {                         // messages of more than 64 KB
        for (size_t n = r.range(12000, 60000); n; --n) x.v.push_back((int) r.next());
        if (r.chance(1, 2)) x.s += std::string(r.range(66000, 200000), 'z');
        largeEvents.fetch_add(1, std::memory_order_relaxed);
    }
    return x;
}
typedef std::basic_streambuf<char> *Buf;
template<class T> struct Capture : kpsr::Publisher<T> {
    std::vector<std::shared_ptr<T>> got;
    T scratch{};
    bool useScratch;
    explicit Capture(bool reuse = false) : kpsr::Publisher<T>(nullptr, "capture", "TEST"), useScratch(reuse) {}
    void internalPublish(const T &e) override { got.push_back(std::make_shared<T>(e)); }
    void internalPublish(std::shared_ptr<const T> e) override { got.push_back(std::make_shared<T>(*e)); }
    void processAndPublish(std::function<void(T &)> p) override {
        if (useScratch) { p(scratch); internalPublish(scratch); }
        else { T t{}; p(t); internalPublish(t); }
    }
};
template<size_t N> void blobCase(vh::Case &c) {
    auto &r = c.rng;
    kpsr::Mapper<Blob<N>, std::vector<unsigned char>> map;
    Blob<N> a, b;
    for (auto &x : a.c) x = (unsigned char) r.next();
    std::vector<unsigned char> msg(r.below(40), 9);
    map.toMiddleware(a, msg);
    VH_CHECK(msg.size() == N && memcmp(msg.data(), a.c, N) == 0, "serial:cast-message", "the message of a " << N << "-byte event has " << msg.size() << " bytes or other content");
    memset(&b, 0x11, sizeof b);
    map.fromMiddleware(msg, b);
    VH_CHECK(memcmp(&a, &b, N) == 0, "serial:cast-round-trip", "a " << N << "-byte event came back different");
    // longer message: prefix; shorter message: refused
    std::vector<unsigned char> longer = msg;
    longer.resize(N + 1 + r.below(30), 0xee);
    memset(&b, 0x11, sizeof b);
    map.fromMiddleware(longer, b);
    VH_CHECK(memcmp(&a, &b, N) == 0, "serial:cast-round-trip", "a longer message did not give its prefix");
    std::vector<unsigned char> shorter(msg.begin(), msg.begin() + (long) r.below(N));
    shorter.shrink_to_fit();
    memset(&b, 0x11, sizeof b);
    bool threw = false;
    try { map.fromMiddleware(shorter, b); } catch (std::exception &) { threw = true; }
    VH_CHECK(threw, "serial:short-message-accepted", "a message of " << shorter.size() << " bytes was accepted for an event of " << N);
    for (auto x : b.c) VH_CHECK(x == 0x11, "serial:short-message-applied", "a refused message changed the event");
    vh::count("short_messages_refused");
}
} // namespace

VH_SCENARIO(serial_cast)
{
    auto &r = c.rng;
    switch (r.below(6)) {
    case 0: blobCase<1>(c); break;
    case 1: blobCase<8>(c); break;
    case 2: blobCase<13>(c); break;
    case 3: blobCase<64>(c); break;
    case 4: blobCase<1000>(c); break;
    default: {
        kpsr::Mapper<Pod, std::vector<unsigned char>> m;
        Pod p, q;
        memset(&p, 0, sizeof p);
        p.id = (int) r.next(); p.f = 1.5f; p.d = dbl(r); p.u[1] = r.next();
        std::vector<unsigned char> msg;
        m.toMiddleware(p, msg);
        m.fromMiddleware(msg, q);
        VH_CHECK(memcmp(&p, &q, sizeof p) == 0, "serial:cast-round-trip", "a structure came back different");
    }
    }
    kpsr::Mapper<Doc, Doc> id;
    Doc d = doc(r, true), e = doc(r, true), f = doc(r, true);
    Doc keep = d;
    id.toMiddleware(d, e);
    id.fromMiddleware(e, f);
    VH_CHECK(e == keep && f == keep && d == keep, "serial:identity", "the identity mapping changed the event");
    c.desc << "raw and identity mappings";
    c.mark(r.next());
    c.nontrivial = true;
    vh::count("identity_round_trips");
}

VH_SCENARIO(serial_json)
{
    auto &r = c.rng;
    kpsr::Mapper<Doc, std::string> m;
    int n = (int) r.range(1, 5);
    Doc back; // reused: nothing of the previous event may remain
    std::string msg = "previous content";
    for (int i = 0; i < n; ++i) {
        Doc d = doc(r, false), keep = d;
        m.toMiddleware(d, msg);
        VH_CHECK(d == keep, "serial:json-source", "serialising changed the event");
        m.fromMiddleware(msg, back);
        VH_CHECK(back == d, "serial:json-round-trip", "an event came back different from " << msg);
        vh::count("json_round_trips");
        if (long n = largeEvents.exchange(0)) vh::count("large_events", n);
        // every strict prefix is refused
        for (int k = 0; k < 3; ++k) {
            std::string cut = msg.substr(0, r.below(msg.size()));
            Doc t;
            bool threw = false;
            try { m.fromMiddleware(cut, t); } catch (std::exception &) { threw = true; }
            VH_CHECK(threw, "serial:truncated-json-accepted", "accepted " << cut.size() << " of " << msg.size() << " characters: " << cut);
            vh::count("truncated_refused");
        }
        std::string bad = msg;
        for (size_t k = 1 + r.below(4); k; --k) bad[r.below(bad.size())] = (char) r.range(1, 126);
        Doc t;
        try { m.fromMiddleware(bad, t); vh::count("damaged_parsed"); } catch (std::exception &) { vh::count("damaged_refused"); }
        Doc again;
        m.fromMiddleware(msg, again); // a refused message leaves the mapper usable
        VH_CHECK(again == d, "serial:json-round-trip", "a good message was misread after a damaged one");
        c.mark(vh::hashStr(msg));
        if (i == 0) c.desc << msg.substr(0, 400);
    }
    c.nontrivial = true;
}

VH_SCENARIO(serial_binary)
{
    auto &r = c.rng;
    kpsr::Mapper<Doc, Buf> m;
    int n = (int) r.range(1, 5);
    std::stringbuf sb;
    Buf b = &sb;
    std::vector<Doc> sent;
    std::vector<size_t> ends;
    for (int i = 0; i < n; ++i) {
        Doc d = doc(r, true), keep = d;
        m.toMiddleware(d, b);
        VH_CHECK(d == keep, "serial:binary-source", "serialising changed the event");
        sent.push_back(d);
        ends.push_back(sb.str().size());
    }
    // one after the other from the same stream
    Doc back;
    for (int i = 0; i < n; ++i) {
        m.fromMiddleware(b, back);
        VH_CHECK(back == sent[i], "serial:binary-round-trip", "event " << i << " of " << n << " in one stream came back different");
        vh::count("binary_round_trips");
        if (long n = largeEvents.exchange(0)) vh::count("large_events", n);
    }
    bool threw = false;
    try { m.fromMiddleware(b, back); } catch (std::exception &) { threw = true; }
    VH_CHECK(threw, "serial:empty-stream-accepted", "an event was read from an exhausted stream");
    // from a view over a message, and truncated
    std::string all = sb.str();
    int k = (int) r.below(n);
    size_t from = k ? ends[k - 1] : 0;
    std::vector<char> one(all.begin() + (long) from, all.begin() + (long) ends[k]);
    {
        kpsr::core::NonCopyingStringBuffer view(one.data(), (long) one.size());
        Buf vb = &view;
        Doc t;
        m.fromMiddleware(vb, t);
        VH_CHECK(t == sent[k], "serial:binary-round-trip", "an event read from a message view came back different");
    }
    for (int q = 0; q < 4; ++q) {
        std::vector<char> cut(one.begin(), one.begin() + (long) r.below(one.size()));
        cut.shrink_to_fit();
        kpsr::core::NonCopyingStringBuffer view(cut.data(), (long) cut.size());
        Buf vb = &view;
        Doc t;
        bool th = false;
        try { m.fromMiddleware(vb, t); } catch (std::exception &) { th = true; }
        VH_CHECK(th, "serial:truncated-binary-accepted", "accepted " << cut.size() << " of " << one.size() << " bytes");
        vh::count("truncated_refused");
    }
    c.desc << n << " binary events, " << all.size() << " bytes";
    c.mark(vh::hashStr(all));
    c.nontrivial = true;
}

// Publisher -> mapper -> middleware message -> mapper -> publisher
VH_SCENARIO(serial_channel)
{
    auto &r = c.rng;
    int kind = (int) r.below(3), n = (int) r.range(1, 12);
    c.desc << "channel kind " << kind << ", " << n << " events";
    c.mark(kind * 100 + n + r.next());
    auto exercise = [&](auto tag, auto makeEvent, auto same) {
        typedef typename decltype(tag)::first_type T;
        typedef typename decltype(tag)::second_type M;
        bool reuse = r.chance(1, 2);
        auto *mid = new Capture<M>(reuse);
        kpsr::ToMiddlewareChannel<T, M> to(nullptr, "to", std::unique_ptr<kpsr::Publisher<M>>(mid));
        Capture<T> end(r.chance(1, 2));
        kpsr::FromMiddlewareChannel<T, M> from(&end);
        std::vector<T> sent;
        for (int i = 0; i < n; ++i) {
            T e = makeEvent();
            int how = (int) r.below(3);
            if (how == 0) to.publish(e);
            else if (how == 1) to.publish(std::make_shared<const T>(e));
            else to.processAndPublish([&](T &x) { x = e; });
            sent.push_back(e);
            VH_CHECK((int) mid->got.size() == i + 1, "serial:channel-count", "publication " << i << " put " << mid->got.size() << " messages on the middleware");
            if (r.chance(1, 2)) continue;
        }
        for (int i = 0; i < n; ++i) {
            from.onMiddlewareMessage(*mid->got[i]);
            VH_CHECK((int) end.got.size() == i + 1, "serial:channel-count", "message " << i << " led to " << end.got.size() << " publications");
            VH_CHECK(same(*end.got[i], sent[i]), "serial:channel-content", "event " << i << " changed on its way through the channels");
        }
        vh::count("channel_events", n);
    };
    auto eq = [](const Doc &a, const Doc &b) { return a == b; };
    if (kind == 0) exercise(std::pair<Doc, std::string>(), [&] { return doc(r, false); }, eq);
    else if (kind == 1)
        exercise(std::pair<Pod, std::vector<unsigned char>>(), [&] { Pod p; memset(&p, 0, sizeof p); p.id = (int) r.next(); p.d = dbl(r); return p; },
                 [](const Pod &a, const Pod &b) { return memcmp(&a, &b, sizeof a) == 0; });
    else exercise(std::pair<Doc, Doc>(), [&] { return doc(r, true); }, eq);
    c.nontrivial = true;
}

// Mappers have no shared state: threads with mappers of their own never disturb each other.
VH_SCENARIO(serial_threads)
{
    auto &r = c.rng;
    int n = (int) r.range(2, 4);
    c.desc << n << " threads";
    c.mark(r.next());
    std::vector<uint64_t> seeds;
    for (int i = 0; i < n; ++i) seeds.push_back(r.next());
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i)
            th.emplace_back([&, i] {
                vh::Rng rr(seeds[i]);
                kpsr::Mapper<Doc, std::string> mj;
                kpsr::Mapper<Doc, Buf> mb;
                for (int k = 0; k < 5; ++k) {
                    Doc d = doc(rr, false), e, f;
                    std::string s;
                    mj.toMiddleware(d, s);
                    mj.fromMiddleware(s, e);
                    std::stringbuf sb;
                    Buf b = &sb;
                    mb.toMiddleware(d, b);
                    mb.fromMiddleware(b, f);
                    VH_CHECK(e == d && f == d, "serial:thread-round-trip", "an event came back different while other threads were serialising");
                }
            });
        vh::HarnessWait w("serialisation threads");
        for (auto &t : th) t.join();
    }
    vh::count("concurrent_round_trips", n * 5);
    if (long n = largeEvents.exchange(0)) vh::count("large_events", n);
    c.nontrivial = true;
}
