// C14 claims, C15 delivery, C16 wait strategies, C17 event processors of the ring buffer.
#include "vh.hpp"
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>

using namespace disruptor4cpp;

namespace {
constexpr int64_t TIMEOUT_NS = 2000000;

struct Ev {
    int64_t seq = -1;
    int64_t tag = 0;
    int64_t words[3] = {0, 0, 0};
    void set(int64_t s, int64_t t) {
        seq = s;
        tag = t;
        for (int i = 0; i < 3; ++i) words[i] = s * 31 + t + i;
    }
    bool good(int64_t s) const {
        for (int i = 0; i < 3; ++i) if (words[i] != s * 31 + tag + i) return false;
        return seq == s;
    }
};

struct Barrier {
    virtual ~Barrier() {}
    virtual int64_t wait_for(int64_t s) = 0;
    virtual void alert() = 0;
    virtual void clear_alert() = 0;
    virtual bool is_alerted() = 0;
    virtual int64_t cursor() = 0;
};
struct Proc {
    virtual ~Proc() {}
    virtual void run() = 0;
    virtual void halt() = 0;
    virtual bool running() = 0;
    virtual sequence &seq() = 0;
    virtual bool alert(bool on) = 0;          // the barrier's alert; false: the processor keeps its barrier to itself
};
// One ring buffer whatever its template arguments are.
struct Rig {
    virtual ~Rig() {}
    virtual int size() = 0;
    virtual int64_t next(int n) = 0;
    virtual int64_t next1() = 0;
    virtual int64_t try_next(int n) = 0;
    virtual int64_t try_next1() = 0;
    virtual void publish(int64_t s) = 0;
    virtual void publish(int64_t lo, int64_t hi) = 0;
    virtual void claim(int64_t s) = 0;
    virtual int64_t cursor() = 0;
    virtual int64_t remaining() = 0;
    virtual bool hasCap(int n) = 0;
    virtual int64_t minSeq() = 0;
    virtual bool avail(int64_t s) = 0;
    virtual int64_t highest(int64_t lo, int64_t hi) = 0;
    virtual Ev &slot(int64_t s) = 0;
    virtual void addGating(const std::vector<sequence *> &v) = 0;
    virtual bool removeGating(sequence &s) = 0;
    virtual std::unique_ptr<Barrier> barrier(const std::vector<sequence *> &deps) = 0;
    virtual std::unique_ptr<Proc> processor(const std::vector<sequence *> &deps, event_handler<Ev> &h, bool own) = 0;
    virtual std::unique_ptr<Proc> noop(const std::vector<sequence *> &deps, bool own) = 0;
};

template<class RB> struct RigOf : Rig {
    typedef typename RB::sequence_barrier_type SB;
    struct B : Barrier {
        std::unique_ptr<SB> b;
        int64_t wait_for(int64_t s) override { return b->wait_for(s); }
        void alert() override { b->alert(); }
        void clear_alert() override { b->clear_alert(); }
        bool is_alerted() override { return b->is_alerted(); }
        int64_t cursor() override { return b->get_cursor(); }
    };
    template<class P> struct PR : Proc {
        std::unique_ptr<SB> b;
        std::unique_ptr<P> p;
        void run() override { p->run(); }
        void halt() override { p->halt(); }
        bool running() override { return p->is_running(); }
        sequence &seq() override { return p->get_sequence(); }
        bool alert(bool on) override {
            if (!b) return false;
            if (on) b->alert(); else b->clear_alert();
            return true;
        }
    };
    std::unique_ptr<RB> rb;
    RigOf(int how) {
        Ev e;
        e.set(-7, 3);
        if (how == 0) rb.reset(new RB());
        else if (how == 1) rb.reset(new RB(&e));
        else {
            int64_t calls = 0;
            rb.reset(new RB(std::function<void(Ev &)>([&calls](Ev &x) { x.set(-7, 3 + calls++); })));
            VH_CHECK(calls == size(), "ring:initial-content", "the initialiser ran " << calls << " times for " << size() << " slots");
        }
        std::set<int64_t> tags;
        if (how)
            for (int i = 0; i < size(); ++i) {
                VH_CHECK(slot(i).good(-7) && (how == 2 ? tags.insert(slot(i).tag).second : slot(i).tag == 3), "ring:initial-content", "slot " << i << " was not initialised as asked");
            }
    }
    int size() override { return (int) rb->get_buffer_size(); }
    int64_t next(int n) override { return rb->next(n); }
    int64_t next1() override { return rb->next(); }
    int64_t try_next(int n) override { return rb->try_next(n); }
    int64_t try_next1() override { return rb->try_next(); }
    void publish(int64_t s) override { rb->publish(s); }
    void publish(int64_t lo, int64_t hi) override { rb->publish(lo, hi); }
    void claim(int64_t s) override { rb->claim(s); }
    int64_t cursor() override { return rb->get_cursor(); }
    int64_t remaining() override { return rb->remaining_capacity(); }
    bool hasCap(int n) override { return rb->has_available_capacity(n); }
    int64_t minSeq() override { return rb->get_minimum_sequence(); }
    bool avail(int64_t s) override { return rb->is_available(s); }
    int64_t highest(int64_t lo, int64_t hi) override { return rb->get_highest_published_sequence(lo, hi); }
    Ev &slot(int64_t s) override { return (*rb)[s]; }
    void addGating(const std::vector<sequence *> &v) override { rb->add_gating_sequences(v); }
    bool removeGating(sequence &s) override { return rb->remove_gating_sequence(s); }
    std::unique_ptr<Barrier> barrier(const std::vector<sequence *> &deps) override {
        auto *b = new B();
        b->b = deps.empty() ? rb->new_barrier() : rb->new_barrier(deps);
        return std::unique_ptr<Barrier>(b);
    }
    std::unique_ptr<Proc> processor(const std::vector<sequence *> &deps, event_handler<Ev> &h, bool own) override {
        typedef batch_event_processor<RB> P;
        auto *p = new PR<P>();
        auto b = rb->new_barrier(deps);
        if (own) p->p.reset(new P(*rb, std::move(b), h));
        else { p->b = std::move(b); p->p.reset(new P(*rb, *p->b, h, "p")); }
        return std::unique_ptr<Proc>(p);
    }
    std::unique_ptr<Proc> noop(const std::vector<sequence *> &deps, bool own) override {
        typedef no_op_event_processor<RB> P;
        auto *p = new PR<P>();
        auto b = rb->new_barrier(deps);
        if (own) p->p.reset(new P(*rb, std::move(b)));
        else { p->b = std::move(b); p->p.reset(new P(*rb, *p->b)); }
        return std::unique_ptr<Proc>(p);
    }
};
const char *STRATEGY[] = {"blocking", "busy_spin", "lite_blocking", "phased_backoff", "sleeping", "timeout_blocking", "yielding"};
constexpr int NSTRAT = 7;
typedef phased_backoff_wait_strategy<20000, 100000, blocking_wait_strategy> Phased;
typedef timeout_blocking_wait_strategy<TIMEOUT_NS> Timeout;

template<size_t N, producer_type PT> std::unique_ptr<Rig> mk(int strat, int how) {
    switch (strat) {
    case 0: return std::unique_ptr<Rig>(new RigOf<ring_buffer<Ev, N, blocking_wait_strategy, PT>>(how));
    case 1: return std::unique_ptr<Rig>(new RigOf<ring_buffer<Ev, N, busy_spin_wait_strategy, PT>>(how));
    case 2: return std::unique_ptr<Rig>(new RigOf<ring_buffer<Ev, N, lite_blocking_wait_strategy, PT>>(how));
    case 3: return std::unique_ptr<Rig>(new RigOf<ring_buffer<Ev, N, Phased, PT>>(how));
    case 4: return std::unique_ptr<Rig>(new RigOf<ring_buffer<Ev, N, sleeping_wait_strategy<>, PT>>(how));
    case 5: return std::unique_ptr<Rig>(new RigOf<ring_buffer<Ev, N, Timeout, PT>>(how));
    default: return std::unique_ptr<Rig>(new RigOf<ring_buffer<Ev, N, yielding_wait_strategy<>, PT>>(how));
    }
}
template<size_t N, producer_type PT> std::unique_ptr<Rig> mkSmall(int strat, int how) {
    if (strat == 0) return std::unique_ptr<Rig>(new RigOf<ring_buffer<Ev, N, blocking_wait_strategy, PT>>(how));
    return std::unique_ptr<Rig>(new RigOf<ring_buffer<Ev, N, yielding_wait_strategy<>, PT>>(how));
}
// strategies 0 and 6 exist for every size, the others for size 8
struct Shape { bool multi; int strat; int size; };
Shape randomShape(vh::Rng &r, bool anyStrategy = true) {
    Shape s;
    s.multi = r.chance(1, 2);
    static const int sizes[] = {2, 4, 8, 64};
    if (anyStrategy && r.chance(2, 3)) { s.strat = (int) r.below(NSTRAT); s.size = 8; }
    else { s.strat = r.chance(1, 2) ? 0 : 6; s.size = sizes[r.below(4)]; }
    return s;
}
std::unique_ptr<Rig> make(const Shape &s, int how = 0) {
    if (s.multi) switch (s.size) {
        case 2: return mkSmall<2, producer_type::multi>(s.strat, how);
        case 4: return mkSmall<4, producer_type::multi>(s.strat, how);
        case 8: return mk<8, producer_type::multi>(s.strat, how);
        default: return mkSmall<64, producer_type::multi>(s.strat, how);
    }
    switch (s.size) {
    case 2: return mkSmall<2, producer_type::single>(s.strat, how);
    case 4: return mkSmall<4, producer_type::single>(s.strat, how);
    case 8: return mk<8, producer_type::single>(s.strat, how);
    default: return mkSmall<64, producer_type::single>(s.strat, how);
    }
}
void describe(vh::Case &c, const Shape &s) {
    c.desc << (s.multi ? "multi" : "single") << " producer, " << s.size << " slots, " << STRATEGY[s.strat] << ": ";
    c.mark(s.multi * 1000 + s.strat * 100 + s.size);
}
struct Threads {
    std::vector<std::thread> t;
    template<class F> void add(F f) { t.emplace_back(f); }
    void join(const char *what) {
        vh::HarnessWait w(what);
        for (auto &x : t) x.join();
        t.clear();
    }
    ~Threads() { if (!t.empty()) join("threads"); }
};
} // namespace

// ---------------------------------------------------------------- C14
VH_SCENARIO(claim_model)
{
    auto &r = c.rng;
    Shape sh = randomShape(r, false);
    auto rig = make(sh, (int) r.below(3));
    describe(c, sh);
    const int N = sh.size;
    static const int64_t starts[] = {-1, -1, 5, (1ll << 31) - 7, (1ll << 31) + 3, (1ll << 32) - 2, (1ll << 33) + 1, 1ll << 45};
    int64_t start = starts[r.below(8)];
    c.desc << "from " << start << ": ";
    c.mark((uint64_t) start);
    int64_t claimed = -1;
    std::vector<std::unique_ptr<sequence>> own;
    std::vector<sequence *> gating;
    std::vector<int64_t> pos;
    std::set<int64_t> unpub;             // claimed, not published
    std::map<int64_t, int64_t> slotSeq;  // slot -> last sequence published into it
    int64_t pubCursor = -1;
    if (start >= 0) {
        if (r.chance(1, 3)) {           // a consumer that was there before, and is far behind now
            own.emplace_back(new sequence(3));
            gating.push_back(own.back().get());
            pos.push_back(-1);
            rig->addGating(gating);
            VH_CHECK(gating[0]->get() == -1, "claim:gating-start", "a new gating sequence starts at " << gating[0]->get() << " on an empty ring");
            vh::count("jumps_ahead_of_a_consumer");
        }
        rig->claim(start);
        rig->publish(start);
        claimed = pubCursor = start;
        slotSeq[start & (N - 1)] = start;
    }
    int refused = 0, wraps = 0, ops = (int) r.range(20, 160);
    auto minGate = [&] {
        int64_t m = claimed;
        for (auto p : pos) m = std::min(m, p);
        return m;
    };
    for (int i = 0; i < ops; ++i) {
        switch (r.below(12)) {
        case 0: // a new consumer joins when nothing is in flight
            if (gating.size() < 4 && unpub.empty() && r.chance(1, 2)) {
                int k = r.chance(1, 4) ? 2 : 1;
                std::vector<sequence *> v;
                for (int j = 0; j < k; ++j) { own.emplace_back(new sequence(r.chance(1, 2) ? -1 : 17)); v.push_back(own.back().get()); }
                if (r.chance(1, 5)) v.push_back(v[0]);          // registered twice
                rig->addGating(v);
                for (auto s : v) {
                    VH_CHECK(s->get() == pubCursor, "claim:gating-start", "a new gating sequence starts at " << s->get() << ", cursor is " << pubCursor);
                    gating.push_back(s);
                    pos.push_back(pubCursor);
                }
            }
            break;
        case 1:
            if (!gating.empty() && r.chance(1, 3)) {
                size_t k = r.below(gating.size());
                VH_CHECK(rig->removeGating(*gating[k]), "claim:gating-remove", "removing a gating sequence reported nothing removed");
                VH_CHECK(!rig->removeGating(*gating[k]), "claim:gating-remove", "a gating sequence was removed twice");
                sequence *gone = gating[k];
                for (size_t j = gating.size(); j-- > 0;)
                    if (gating[j] == gone) { gating.erase(gating.begin() + j); pos.erase(pos.begin() + j); }
            }
            break;
        case 2: case 3: case 4: { // consumers advance over what is published without a gap
            for (size_t k = 0; k < gating.size(); ++k) {
                int64_t top = pubCursor;
                if (sh.multi) { top = claimed; if (!unpub.empty()) top = *unpub.begin() - 1; }
                if (top > pos[k] && r.chance(2, 3)) {
                    pos[k] = r.range(pos[k] + 1, top);
                    gating[k]->set(pos[k]);
                    for (size_t j = 0; j < gating.size(); ++j) if (gating[j] == gating[k]) pos[j] = pos[k];
                }
            }
            break;
        }
        case 5: case 6: case 7: { // publish
            if (unpub.empty()) break;
            if (!sh.multi) {
                int64_t hi = r.chance(1, 2) ? *unpub.rbegin() : *unpub.begin();
                int64_t lo = *unpub.begin();
                if (lo == hi && r.chance(1, 2)) rig->publish(lo); else rig->publish(lo, hi);
                for (int64_t s = lo; s <= hi; ++s) { unpub.erase(s); slotSeq[s & (N - 1)] = s; }
                pubCursor = hi;
            } else {
                auto it = unpub.begin();
                std::advance(it, r.below(unpub.size()));
                int64_t lo = *it, hi = lo;
                while (unpub.count(hi + 1) && r.chance(1, 2)) ++hi;
                if (lo == hi && r.chance(1, 2)) rig->publish(lo); else rig->publish(lo, hi);
                for (int64_t s = lo; s <= hi; ++s) { unpub.erase(s); slotSeq[s & (N - 1)] = s; }
                if (unpub.empty()) pubCursor = claimed;
            }
            break;
        }
        default: { // claim
            int n = (int) r.range(1, std::min(N, 5));
            if (r.chance(1, 8)) n = N;
            // claims beyond what was published are only bounded by the consumers
            int64_t room = gating.empty() ? N : N - (claimed - minGate());
            bool fits = n <= room;
            // a slot must not be claimed again before it is published (the producer's own duty)
            if (!unpub.empty() && claimed + n - N >= *unpub.begin()) break;
            VH_CHECK(rig->hasCap(n) == fits, "claim:has-capacity", "room for " << n << "? answered " << !fits << ", free " << room << ", claimed up to " << claimed);
            VH_CHECK(rig->remaining() == room, "claim:remaining", "remaining capacity " << rig->remaining() << " expected " << room);
            int64_t got = -2;
            if (r.chance(1, 30)) {
                int bad = (int) r.range(-3, 0);
                bool t1 = false, t2 = false;
                try { rig->next(bad); } catch (const std::invalid_argument &) { t1 = true; }
                try { rig->try_next(bad); } catch (const std::invalid_argument &) { t2 = true; }
                VH_CHECK(t1 && t2, "claim:bad-count", "claiming " << bad << " slots was accepted");
            }
            if (!fits || r.chance(1, 2)) {
                try {
                    got = n == 1 && r.chance(1, 2) ? rig->try_next1() : rig->try_next(n);
                    VH_CHECK(fits, "claim:overrun", "a claim of " << n << " succeeded with " << room << " free");
                } catch (const insufficient_capacity_exception &) {
                    VH_CHECK(!fits, "claim:refused", "a claim of " << n << " was refused with " << room << " free");
                    ++refused;
                    break;
                }
            } else {
                got = n == 1 && r.chance(1, 2) ? rig->next1() : rig->next(n);
            }
            VH_CHECK(got == claimed + n, "claim:value", "claim of " << n << " after " << claimed << " returned " << got);
            for (int64_t s = claimed + 1; s <= got; ++s) unpub.insert(s);
            claimed = got;
            if (claimed - start > N) ++wraps;
        }
        }
        // observers
        VH_CHECK(rig->cursor() == (sh.multi ? claimed : pubCursor), "claim:cursor", "cursor " << rig->cursor());
        if (!gating.empty()) {
            int64_t m = *std::min_element(pos.begin(), pos.end());
            VH_CHECK(rig->minSeq() == m, "claim:minimum", "slowest consumer reported at " << rig->minSeq() << ", is at " << m);
        }
        if (claimed >= 0) {
            int64_t s = r.range(std::max<int64_t>(0, claimed - N + 1), claimed);
            if (start >= 0 && s < start) s = start;
            bool pub = sh.multi ? slotSeq.count(s & (N - 1)) && slotSeq[s & (N - 1)] == s : s <= pubCursor;
            VH_CHECK(rig->avail(s) == pub, "claim:available", "sequence " << s << " reported " << (pub ? "un" : "") << "published");
            if (sh.multi) {
                int64_t e = s - 1;
                while (e < claimed && slotSeq.count((e + 1) & (N - 1)) && slotSeq[(e + 1) & (N - 1)] == e + 1) ++e;
                VH_CHECK(rig->highest(s, claimed) == e, "claim:highest", "highest published from " << s << " reported " << rig->highest(s, claimed) << " expected " << e);
            } else if (s <= pubCursor)
                VH_CHECK(rig->highest(s, pubCursor) == pubCursor, "claim:highest", "highest published reported " << rig->highest(s, pubCursor));
            VH_CHECK(&rig->slot(s) == &rig->slot(s + N) && &rig->slot(s) != &rig->slot(s + 1), "claim:slot", "slots are not reused every " << N << " sequences");
        }
    }
    c.mark((uint64_t) claimed); c.mark(refused);
    c.nontrivial = refused > 0 && wraps > 0;
    vh::count("refused_claims", refused);
    vh::count("wrapping_claims", wraps);
    if (start > (1ll << 31)) vh::count("cases_past_2^31");
}

// Several producers claim, fill and publish; consumers read straight from the ring.
VH_SCENARIO(claim_threads)
{
    auto &r = c.rng;
    Shape sh = randomShape(r, false);
    auto rig = make(sh);
    describe(c, sh);
    const int N = sh.size, P = sh.multi ? (int) r.range(1, 4) : 1, C = (int) r.range(1, 3);
    const int64_t total = (c.thorough ? 6000 : 1500) / P * P;
    static const int64_t starts[] = {-1, -1, (1ll << 31) - 50, (1ll << 32) - 60};
    int64_t start = starts[r.below(4)];
    if (start >= 0) { rig->claim(start); rig->publish(start); }
    c.desc << P << " producers, " << C << " consumers, " << total << " events from " << start;
    c.mark(P * 10 + C); c.mark((uint64_t) start);
    std::vector<std::unique_ptr<sequence>> gate;
    std::vector<sequence *> gp;
    for (int i = 0; i < C; ++i) { gate.emplace_back(new sequence()); gp.push_back(gate.back().get()); }
    rig->addGating(gp);
    std::vector<std::atomic<char>> claimedBy(total);
    for (auto &x : claimedBy) x.store(0, std::memory_order_relaxed);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < P + C; ++i) seeds.push_back(r.next());
    std::atomic<long> blocked{0}, refused{0};
    {
        vh::WithNoise noise(c);
        Threads th;
        for (int p = 0; p < P; ++p) th.add([&, p] {
            vh::Rng q(seeds[p]);
            int64_t left = total / P;
            while (left > 0) {
                int n = (int) std::min<int64_t>(left, q.range(1, std::min(N, 4)));
                int64_t hi;
                if (q.chance(1, 2)) hi = rig->next(n);
                else for (;;) {
                    try { hi = rig->try_next(n); break; }
                    catch (const insufficient_capacity_exception &) { refused.fetch_add(1, std::memory_order_relaxed); std::this_thread::yield(); }
                }
                for (auto g : gp) VH_CHECK(g->get() >= hi - N, "claim:overrun", "slot of sequence " << hi << " claimed while a consumer is at " << g->get() << " (" << N << " slots)");
                for (int64_t s = hi - n + 1; s <= hi; ++s) {
                    int64_t k = s - start - 1;
                    VH_CHECK(k >= 0 && k < total, "claim:range", "claimed sequence " << s << " outside the range in use");
                    VH_CHECK(claimedBy[k].exchange(1, std::memory_order_relaxed) == 0, "claim:duplicate", "sequence " << s << " was claimed twice");
                    rig->slot(s).set(s, p);
                }
                if (n == 1) rig->publish(hi);
                else if (!sh.multi || q.chance(1, 2)) rig->publish(hi - n + 1, hi);
                else for (int64_t s = hi; s > hi - n; --s) rig->publish(s);
                left -= n;
                vh::progress();
            }
        });
        for (int k = 0; k < C; ++k) th.add([&, k] {
            vh::Rng q(seeds[P + k]);
            int64_t next = start + 1;
            while (next <= start + total) {
                int64_t cur = rig->cursor();
                int64_t top = cur >= next ? rig->highest(next, cur) : next - 1;
                if (top < next) { std::this_thread::yield(); continue; }
                VH_CHECK(top <= start + total, "claim:published-range", "published up to " << top);
                if (q.chance(1, 3)) top = q.range(next, top);
                for (; next <= top; ++next) {
                    VH_CHECK(rig->slot(next).good(next), "claim:content", "slot of " << next << " holds sequence " << rig->slot(next).seq);
                    if (q.chance(1, 16)) { std::this_thread::yield(); VH_CHECK(rig->slot(next).good(next), "claim:overwritten", "slot of " << next << " was overwritten while being read"); }
                }
                gp[k]->set(next - 1);
                vh::progress();
            }
        });
        th.join("producers and consumers");
    }
    for (int64_t k = 0; k < total; ++k) VH_CHECK(claimedBy[k].load(), "claim:gap", "sequence " << start + 1 + k << " was never claimed");
    VH_CHECK(rig->cursor() == start + total && rig->remaining() == N, "claim:final", "cursor " << rig->cursor() << " remaining " << rig->remaining());
    c.nontrivial = P > 1 || C > 1;
    vh::count("claimed_concurrently", total);
    vh::count("refusals_under_load", refused.load());
}

// Positions are advanced by several threads at once.
VH_SCENARIO(sequence_ops)
{
    auto &r = c.rng;
    int T = (int) r.range(2, 4), each = (int) r.range(50, 400);
    int64_t start = r.chance(1, 2) ? -1 : (1ll << 32) - 300;
    c.desc << T << " threads x" << each << " from " << start;
    c.mark(T); c.mark(each); c.mark((uint64_t) start);
    sequence s(start), byCas(start);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < T; ++i) seeds.push_back(r.next());
    std::vector<std::vector<std::pair<int64_t, int64_t>>> got(T);       // (value after, amount)
    std::atomic<int64_t> sum{0}, lost{0};
    {
        vh::WithNoise noise(c);
        vh::SpinStart go;
        Threads th;
        for (int i = 0; i < T; ++i) th.add([&, i] {
            vh::Rng q(seeds[i]);
            go.arrive();
            int64_t last = start;
            for (int k = 0; k < each; ++k) {
                int64_t by = q.chance(1, 2) ? 1 : q.range(1, 5);
                int64_t v = by == 1 ? s.increment_and_get() : s.add_and_get(by);
                VH_CHECK(v > last && s.get() >= v, "sequence:advance", "a position went from " << last << " to " << v << ", reads " << s.get());
                last = v;
                got[i].push_back({v, by});
                sum += by;
                for (;;) {
                    int64_t cur = byCas.get();
                    if (byCas.compare_and_set(cur, cur + by)) break;
                    lost.fetch_add(1, std::memory_order_relaxed);
                }
                VH_CHECK(!byCas.compare_and_set(start - 1, start - 2), "sequence:compare-and-set", "a position was set although it was not at the value expected");
                vh::progress();
            }
        });
        go.release(T);
        th.join("threads advancing a position");
    }
    VH_CHECK(s.get() == start + sum.load() && byCas.get() == start + sum.load(), "sequence:total", "positions at " << s.get() << " and " << byCas.get() << " expected " << start + sum.load());
    std::map<int64_t, int64_t> all;
    for (auto &g : got) for (auto &p : g) VH_CHECK(all.insert(p).second, "sequence:duplicate", "two advances ended at " << p.first);
    int64_t at = start;
    for (auto &p : all) {
        VH_CHECK(p.first == at + p.second, "sequence:contiguous", "an advance by " << p.second << " ended at " << p.first << " after " << at);
        at = p.first;
    }
    c.nontrivial = true;
    vh::count("positions_advanced", (long) all.size());
    vh::count("lost_compare_and_sets", lost.load());
}

// ---------------------------------------------------------------- C15 / C17
namespace {
struct Stage;
struct Topology {
    Rig *rig = nullptr;
    int64_t total = 0;
    std::vector<std::unique_ptr<Stage>> stages;
    std::vector<std::unique_ptr<Proc>> relays;       // processors without a handler, in between
    int throwPerMille = 0;
};
struct Stage : event_handler<Ev> {
    Topology *topo = nullptr;
    int id = 0;
    std::vector<Stage *> up;
    std::unique_ptr<Proc> proc;
    std::vector<int> done;             // plain: whoever is downstream reads it
    std::vector<int> excs;
    int64_t expect = 0;
    int64_t batchBegin = 0;
    int64_t marked = -1;               // the last end of a batch, or event that threw
    std::atomic<int64_t> seen{0};
    std::atomic<int> starts{0}, stops{0}, timeouts{0}, startExc{0}, stopExc{0}, evExc{0};
    int64_t pendingThrow = -1;
    bool inRun = false;
    bool throwStart = false, throwStop = false, throwTimeout = false;
    int64_t batches = 0, big = 0, threwTotal = 0;
    uint64_t seed = 1;
    int slowPerMille = 0;
    std::atomic<int64_t> abortAt{-1};            // throw something that is not std::exception here
    vh::Rng q{1};
    void on_start() override {
        VH_CHECK(!inRun, "proc:start-order", "started while already running");
        inRun = true;
        starts.fetch_add(1, std::memory_order_relaxed);
        vh::progress();
        if (throwStart) throw std::runtime_error("start");
    }
    void on_shutdown() override {
        VH_CHECK(inRun, "proc:shutdown-order", "shut down while not running");
        inRun = false;
        stops.fetch_add(1, std::memory_order_relaxed);
        vh::progress();
        if (throwStop) throw std::runtime_error("stop");
    }
    void on_event(Ev &e, int64_t s, bool eob) override {
        VH_CHECK(inRun, "proc:event-outside-run", "event " << s << " delivered outside start/shutdown");
        VH_CHECK(pendingThrow < 0, "proc:exception-unreported", "the exception thrown on " << pendingThrow << " was not reported before event " << s);
        VH_CHECK(s == expect, "delivery:order", "consumer " << id << " got event " << s << " instead of " << expect);
        VH_CHECK(e.good(s), "delivery:content", "consumer " << id << ": event " << s << " has content of " << e.seq << " (incomplete or wrong)");
        int64_t at = proc->seq().get();
        VH_CHECK(at == marked, "delivery:end-of-batch", "consumer " << id << " has moved on to " << at << ", the last end of a batch it was told of is " << marked);
        VH_CHECK(at < s, "delivery:early-release", "consumer " << id << " reported " << at << " consumed while handling " << s);
        for (auto u : up) VH_CHECK(u->done[s] == 1, "delivery:dependency", "consumer " << id << " got event " << s << " before consumer " << u->id << " finished it");
        if (q.chance(slowPerMille, 1000)) { usleep(q.below(200)); VH_CHECK(e.good(s), "delivery:overwritten", "event " << s << " changed while consumer " << id << " was handling it"); }
        if (s == abortAt) { abortAt = -1; throw 42; }
        done[s]++;
        ++expect;
        if (eob) { ++batches; if (s > batchBegin) ++big; batchBegin = s + 1; marked = s; }
        seen.fetch_add(1, std::memory_order_relaxed);
        vh::progress();
        if (q.chance(topo->throwPerMille, 1000)) { pendingThrow = s; ++threwTotal; throw std::runtime_error("event " + std::to_string(s)); }
    }
    void on_timeout(int64_t s) override {
        VH_CHECK(s == expect - 1, "proc:timeout-sequence", "timeout reported at " << s << " having handled up to " << expect - 1);
        timeouts.fetch_add(1, std::memory_order_relaxed);
        if (throwTimeout && timeouts.load(std::memory_order_relaxed) % 3 == 1) throw std::runtime_error("timeout");
    }
    void on_event_exception(const std::exception &ex, int64_t s, Ev *e) override {
        evExc.fetch_add(1, std::memory_order_relaxed);
        if (std::string(ex.what()) == "timeout") {
            VH_CHECK(s == expect - 1, "proc:timeout-exception", "exception of a timeout reported for " << s);
            return;
        }
        VH_CHECK(s == pendingThrow && std::string(ex.what()) == "event " + std::to_string(s), "proc:exception-sequence",
                 "exception of event " << pendingThrow << " reported for " << s << ": " << ex.what());
        VH_CHECK(e == &topo->rig->slot(s), "proc:exception-event", "exception of event " << s << " reported with another event");
        pendingThrow = -1;
        marked = s;
    }
    void on_start_exception(const std::exception &ex) override {
        VH_CHECK(throwStart && std::string(ex.what()) == "start", "proc:start-exception", "unexpected start exception " << ex.what());
        startExc.fetch_add(1, std::memory_order_relaxed);
    }
    void on_shutdown_exception(const std::exception &ex) override {
        VH_CHECK(throwStop && std::string(ex.what()) == "stop", "proc:stop-exception", "unexpected stop exception " << ex.what());
        stopExc.fetch_add(1, std::memory_order_relaxed);
    }
};
const char *SHAPES[] = {"one consumer", "independent consumers", "pipeline", "diamond", "wide fan-in"};
void buildTopology(Topology &t, Rig &rig, int shape, int64_t total, vh::Rng &r, bool relays = false) {
    t.rig = &rig;
    t.total = total;
    std::vector<std::vector<int>> ups;
    switch (shape) {
    case 0: ups = {{}}; break;
    case 1: ups.assign((size_t) r.range(2, 3), {}); break;
    case 2: ups = {{}, {0}, {1}}; break;
    case 3: ups = {{}, {}, {0, 1}}; break;
    default:
        ups.assign((size_t) r.range(4, 5), {});
        ups.push_back({0, 1, 2, 3});
        if (ups.size() > 5) ups.back().push_back(4);
    }
    std::vector<sequence *> gates;
    for (size_t i = 0; i < ups.size(); ++i) {
        t.stages.emplace_back(new Stage());
        Stage *s = t.stages.back().get();
        s->topo = &t;
        s->id = (int) i;
        s->done.assign(total, 0);
        s->q = vh::Rng(r.next());
        s->slowPerMille = r.chance(1, 3) ? 20 : 0;
        std::vector<sequence *> deps;
        for (int u : ups[i]) { s->up.push_back(t.stages[u].get()); deps.push_back(&t.stages[u]->proc->seq()); }
        if (relays && i + 1 == ups.size() && r.chance(1, 4)) {
            t.relays.push_back(rig.noop(deps, r.chance(1, 2)));
            if (r.chance(3, 4)) deps = {&t.relays[0]->seq()};
            gates.push_back(&t.relays[0]->seq());
            vh::count("relays");
        }
        s->proc = rig.processor(deps, *s, r.chance(1, 2));
        gates.push_back(&s->proc->seq());
    }
    if (shape >= 2 && r.chance(1, 2)) gates = t.relays.empty() ? std::vector<sequence *>{gates.back()} : std::vector<sequence *>{gates[gates.size() - 2], gates.back()};
    rig.addGating(gates);
}
void produce(Rig &rig, bool multi, int64_t n, int who, uint64_t seed, int pausePerMille) {
    vh::Rng q(seed);
    int N = rig.size();
    while (n > 0) {
        int k = (int) std::min<int64_t>(n, q.chance(1, 3) ? q.range(1, std::min(N, 5)) : 1);
        int64_t hi;
        if (q.chance(3, 4)) hi = rig.next(k);
        else for (;;) {
            try { hi = rig.try_next(k); break; }
            catch (const insufficient_capacity_exception &) { std::this_thread::yield(); }
        }
        for (int64_t s = hi - k + 1; s <= hi; ++s) rig.slot(s).set(s, who * 1000 + k);
        if (k == 1) rig.publish(hi);
        else if (!multi || q.chance(1, 2)) rig.publish(hi - k + 1, hi);
        else for (int64_t s = hi - k + 1; s <= hi; ++s) rig.publish(s);
        n -= k;
        vh::progress();
        if (q.chance(pausePerMille, 1000)) usleep(q.below(400));
    }
}
} // namespace

VH_SCENARIO(delivery)
{
    auto &r = c.rng;
    Shape sh = randomShape(r);
    auto rig = make(sh, (int) r.below(3));
    describe(c, sh);
    int shape = (int) (r.chance(1, 8) ? 4 : r.below(4)), P = sh.multi ? (int) r.range(1, 3) : 1;
    int64_t total = (c.thorough ? 4000 : 900) / P * P;
    Topology t;
    t.throwPerMille = r.chance(1, 3) ? 30 : 0;
    buildTopology(t, *rig, shape, total, r, true);
    int pause = r.chance(1, 2) ? 0 : 15;
    c.desc << SHAPES[shape] << ", " << P << " producers, " << total << " events, throwing " << t.throwPerMille << " per mille, pausing " << pause;
    c.mark(shape * 10 + P); c.mark(t.throwPerMille); c.mark(pause); c.mark(total);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < P; ++i) seeds.push_back(r.next());
    {
        vh::WithNoise noise(c);
        Threads cons, prod;
        for (auto &s : t.stages) { Stage *p = s.get(); cons.add([p] { p->proc->run(); }); }
        for (auto &x : t.relays) { Proc *p = x.get(); cons.add([p] { p->run(); }); }
        for (int i = 0; i < P; ++i) prod.add([&, i] { produce(*rig, sh.multi, total / P, i, seeds[i], pause); });
        prod.join("publishing");
        vh::waitUntil("delivery of every event", [&] {
            for (auto &s : t.stages) if (s->proc->seq().get() < total - 1) return false;
            for (auto &x : t.relays) if (x->seq().get() < total - 1) return false;
            return true;
        });
        for (auto &x : t.relays) {
            vh::waitUntil("consumer to be running", [&] { return x->running(); });
            VH_CHECK(x->seq().get() == total - 1, "delivery:relay", "a processor without a handler is at " << x->seq().get());
            x->halt();
        }
        for (auto &s : t.stages) {
            vh::waitUntil("consumer to be running", [&] { return s->proc->running(); });
            s->proc->halt();
        }
        cons.join("consumers to halt");
    }
    int64_t big = 0, threw = 0;
    for (auto &s : t.stages) {
        VH_CHECK(s->expect == total, "delivery:count", "consumer " << s->id << " handled " << s->expect << " of " << total);
        VH_CHECK(s->starts == 1 && s->stops == 1, "proc:lifecycle", "start ran " << s->starts << " times, shutdown " << s->stops);
        VH_CHECK(s->evExc == s->threwTotal && s->pendingThrow < 0, "proc:exception-count", s->threwTotal << " exceptions thrown, " << s->evExc << " reported");
        VH_CHECK(s->batchBegin == total, "delivery:end-of-batch", "the last event was not marked as the end of its batch");
        VH_CHECK(!s->proc->running(), "proc:running-after-halt", "still reported running");
        big += s->big;
        threw += s->threwTotal;
    }
    c.nontrivial = big > 0 || P > 1 || t.stages.size() > 1;
    vh::count("events_delivered", total * (int64_t) t.stages.size());
    vh::count("multi_event_batches", big);
    vh::count("handler_exceptions", threw);
}

// ---------------------------------------------------------------- C16
// Every publication must wake a waiter: two rings play ping-pong.
VH_SCENARIO(wait_pingpong)
{
    auto &r = c.rng;
    Shape sh{r.chance(1, 2), (int) r.below(NSTRAT), 8};
    if (r.chance(1, 3)) sh.strat = 2;
    auto a = make(sh), b = make(sh);
    describe(c, sh);
    bool lite = sh.strat == 2;
    int rounds = sh.strat == 3 || sh.strat == 4 ? 300 : (c.thorough ? 8000 : lite ? 6000 : 1500);
    int waiters = (int) r.range(1, 2), batches = r.chance(1, 2) ? (int) r.range(2, 4) : 1;
    c.desc << rounds << " rounds, " << waiters << " waiters, batches of up to " << batches;
    c.mark(rounds * 4 + waiters); c.mark(batches);
    std::vector<int64_t> lastOf(rounds);     // the last event of each round
    for (int64_t i = 0, at = -1; i < rounds; ++i) lastOf[i] = at += batches > 1 ? r.range(1, batches) : 1;
    // publishes what belongs to round i
    auto fire = [&](Rig &g, int i, long who) {
        int64_t lo = i ? lastOf[i - 1] + 1 : 0, hi = lastOf[i], s = g.next((int) (hi - lo + 1));
        VH_CHECK(s == hi, "wait:claim", "claimed up to " << s << " instead of " << hi);
        for (int64_t k = lo; k <= hi; ++k) g.slot(k).set(k, who);
        if (hi == lo) g.publish(hi); else g.publish(lo, hi);
    };
    std::vector<std::unique_ptr<sequence>> gs;
    auto gate = [&](Rig &g) { gs.emplace_back(new sequence()); g.addGating({gs.back().get()}); return gs.back().get(); };
    std::atomic<long> touts{0};
    auto waitFor = [&](Barrier &bar, int64_t s) {
        for (;;) {
            int64_t got;
            try { got = bar.wait_for(s); }
            catch (const timeout_exception &) { touts.fetch_add(1, std::memory_order_relaxed); continue; }
            if (got < s) continue;
            return got;
        }
    };
    {
        vh::WithNoise noise(c);
        Threads th;
        auto ga = gate(*a), gb = gate(*b);
        sequence *gx = waiters == 2 ? gate(*a) : nullptr;
        auto ba = a->barrier({}), bb = b->barrier({}), bx = a->barrier({});
        th.add([&] {
            for (int i = 0; i < rounds; ++i) {
                fire(*a, i, 1);
                int64_t s = lastOf[i], g = waitFor(*bb, s);
                VH_CHECK(g == s && b->slot(s).good(s), "wait:premature", "waiting for " << s << " returned " << g);
                gb->set(s);
                vh::progress();
            }
        });
        th.add([&] {
            for (int i = 0; i < rounds; ++i) {
                int64_t s = lastOf[i], g = waitFor(*ba, s);
                VH_CHECK(g == s && a->slot(s).good(s), "wait:premature", "waiting for " << s << " returned " << g);
                ga->set(s);
                fire(*b, i, 2);
                vh::progress();
            }
        });
        if (gx) th.add([&] {
            for (int64_t i = 0; i <= lastOf.back();) {
                int64_t g = waitFor(*bx, i);
                for (; i <= g; ++i) VH_CHECK(a->slot(i).good(i), "wait:premature", "event " << i << " not there");
                gx->set(g);
            }
        });
        th.join("a published event to wake its waiter");
    }
    c.nontrivial = true;
    vh::count("wakeups", rounds * 2);
    if (batches > 1) vh::count("batches_that_wake", rounds * 2);
    vh::count("rounds_" + std::string(STRATEGY[sh.strat]), rounds);
    vh::count("wait_timeouts", touts.load());
}

// The moment between a waiter announcing itself and checking again, swept with short delays.
VH_SCENARIO(wait_sweep)
{
    auto &r = c.rng;
    Shape sh{r.chance(1, 2), (int) r.below(NSTRAT), 8};
    if (r.chance(1, 2)) sh.strat = 2;
    auto rig = make(sh);
    describe(c, sh);
    int rounds = sh.strat == 3 || sh.strat == 4 ? 400 : c.thorough ? 60000 : 20000;
    int lo = (int) r.below(200), span = (int) r.range(20, 1500);
    int batches = r.chance(1, 3) ? (int) r.range(2, 4) : 1;
    c.desc << rounds << " publications, batches of up to " << batches << ", " << lo << "-" << lo + span << " steps after the previous one was consumed";
    c.mark(lo / 10); c.mark(span / 50);
    sequence gate;
    rig->addGating({&gate});
    auto bar = rig->barrier({});
    Threads th;
    th.add([&] {
        for (int64_t i = 0; i < rounds;) {
            int64_t g;
            try { g = bar->wait_for(i); } catch (const timeout_exception &) { continue; }
            if (g < i) continue;
            gate.set(g);
            i = g + 1;
        }
    });
    uint64_t seed = r.next();
    th.add([&] {
        vh::Rng q(seed);
        for (int64_t i = 0; i < rounds;) {
            for (int k = 0; gate.get() < i - 1; ++k) if (k > 2000) std::this_thread::yield();
            volatile int d = (int) (lo + q.below(span));
            while (d > 0) d = d - 1;
            int k = (int) std::min<int64_t>(batches > 1 ? q.range(1, batches) : 1, rounds - i);
            int64_t s = rig->next(k);
            for (int64_t j = i; j <= s; ++j) rig->slot(j).set(j, 1);
            if (k == 1) rig->publish(s); else rig->publish(i, s);
            if (i / 64 != (s + 1) / 64) vh::progress();
            i = s + 1;
        }
    });
    th.join("a published event to wake its waiter");
    c.nontrivial = true;
    vh::count("swept_wakeups", rounds);
}

// A waiter returns only for what its dependencies finished, on an alert, or on its timeout.
VH_SCENARIO(wait_outcomes)
{
    auto &r = c.rng;
    Shape sh{r.chance(1, 2), (int) r.below(NSTRAT), 8};
    auto rig = make(sh);
    describe(c, sh);
    int D = (int) r.below(4);
    int64_t from = r.range(0, 3);
    int kind = (int) r.below(3); // 0 publish then deps catch up, 1 alert while waiting, 2 alert before
    if (kind == 2 && r.chance(1, 2)) kind = 1;
    c.desc << D << " dependencies, waiting for " << from << ", " << (kind == 0 ? "published" : kind == 1 ? "alerted while waiting" : "alerted before");
    std::vector<std::unique_ptr<sequence>> deps;
    std::vector<sequence *> dp;
    for (int i = 0; i < D; ++i) { deps.emplace_back(new sequence()); dp.push_back(deps.back().get()); }
    auto bar = rig->barrier(dp);
    bool cursorReady = kind == 1 && r.chance(1, 2) && D > 0;  // blocked on the dependencies only
    int64_t pubTo = r.range(from, from + 3);
    int partial = D ? (int) r.below(D) : 0;
    c.mark(D * 100 + kind * 10 + from); c.mark(cursorReady); c.mark(pubTo * 8 + partial);
    bool ahead = sh.multi && r.chance(1, 2);            // another producer has claimed more and is not done
    bool atOnce = r.chance(1, 2);                       // published in one batch
    c.mark(atOnce);
    if (ahead) vh::count("waits_behind_an_open_claim");
    auto publishAll = [&] {
        if (ahead) {
            rig->next((int) pubTo + 2);
            for (int64_t s = 0; s <= pubTo; ++s) { rig->slot(s).set(s, 9); if (!atOnce) rig->publish(s); }
            if (atOnce) rig->publish(0, pubTo);
        } else if (atOnce) {
            rig->next((int) pubTo + 1);
            for (int64_t s = 0; s <= pubTo; ++s) rig->slot(s).set(s, 9);
            rig->publish(0, pubTo);
        } else
        for (int64_t s = 0; s <= pubTo; ++s) { int64_t q = rig->next(1); rig->slot(q).set(q, 9); rig->publish(q); }
    };
    std::atomic<int> state{0}; // 1 returned, 2 alerted
    std::atomic<int64_t> got{-5};
    std::atomic<bool> allowed{false}, waiting{false};
    std::atomic<long> touts{0};
    uint64_t delay = r.below(3) * 700 + r.below(50);
    {
        vh::WithNoise noise(c);
        if (kind == 2) { bar->alert(); allowed = true; VH_CHECK(bar->is_alerted(), "wait:alert-state", "alert not reported"); }
        Threads th;
        th.add([&] {
            for (;;) {
                int64_t t0 = vh::now();
                try {
                    waiting = true;
                    int64_t g = bar->wait_for(from);
                    bool ok = allowed.load();
                    if (g < from && sh.multi) continue;
                    VH_CHECK(ok && kind == 0, "wait:premature", "wait for " << from << " returned " << g << " before its dependencies finished or it was published");
                    int64_t m = LLONG_MAX;
                    for (auto d : dp) m = std::min(m, d->get());
                    VH_CHECK(g >= from && g <= pubTo && g <= m, "wait:value", "wait for " << from << " returned " << g);
                    got = g;
                    state = 1;
                    return;
                } catch (const alert_exception &) {
                    VH_CHECK(kind != 0 && allowed.load(), "wait:spurious-alert", "alerted although nobody did");
                    state = 2;
                    return;
                } catch (const timeout_exception &) {
                    VH_CHECK(sh.strat == 5, "wait:spurious-timeout", "a strategy without timeout timed out");
                    VH_CHECK(vh::now() - t0 >= TIMEOUT_NS, "wait:early-timeout", "timed out after " << vh::now() - t0 << " ns");
                    touts.fetch_add(1, std::memory_order_relaxed);
                    vh::progress();
                }
            }
        });
        vh::waitUntil("waiter to start", [&] { return waiting.load(); });
        usleep(delay);
        if (kind == 0) {
            if (D == 0) { allowed = true; publishAll(); }
            else {
                publishAll();
                if (r.chance(1, 2)) usleep(200);
                for (int i = 0; i < D; ++i) if (i != partial) dp[i]->set(pubTo);
                usleep(delay / 3);
                VH_CHECK(state.load() == 0, "wait:dependency", "returned although one dependency has not finished");
                allowed = true;
                dp[partial]->set(r.range(from, pubTo));
            }
            th.join("a waiter whose event is there");
            VH_CHECK(state == 1, "wait:outcome", "the waiter did not return normally");
        } else {
            if (cursorReady) { publishAll(); usleep(delay / 2); }
            if (kind == 1) { allowed = true; bar->alert(); }
            th.join("an alerted waiter");
            VH_CHECK(state == 2, "wait:outcome", "the waiter was alerted but returned " << got.load());
            VH_CHECK(bar->is_alerted(), "wait:alert-state", "alert not reported");
            bar->clear_alert();
            VH_CHECK(!bar->is_alerted(), "wait:alert-state", "alert still reported after being cleared");
            // usable again
            if (!cursorReady) publishAll();
            for (auto d : dp) d->set(pubTo);
            for (;;) {
                try { got = bar->wait_for(from); break; } catch (const timeout_exception &) {}
            }
            VH_CHECK(got.load() >= from && got.load() <= pubTo, "wait:after-alert", "after clearing the alert the wait returned " << got.load());
        }
        VH_CHECK(bar->cursor() == (D ? [&] { int64_t m = LLONG_MAX; for (auto d : dp) m = std::min(m, d->get()); return m; }() : rig->cursor()), "wait:barrier-cursor",
                 "barrier reports " << bar->cursor());
    }
    c.nontrivial = true;
    vh::count(kind == 0 ? "waits_completed" : "waits_alerted");
    vh::count("wait_timeouts", touts.load());
}

// A strategy with a long timeout: a publication is seen at once, not when the time is up; and the time does run out.
template<producer_type PT> static void waitTimed(vh::Case &c) {
    constexpr int64_t LONG = 400000000;
    typedef timeout_blocking_wait_strategy<LONG> S;
    auto &r = c.rng;
    if (r.chance(1, 2)) {
        int64_t at = -1;
        ring_buffer<Ev, 8, Timeout, PT> rb;
        auto bar = rb.new_barrier();
        for (int64_t n = r.range(0, 5); n > 0; --n) { at = rb.next(); rb.publish(at); }
        int ahead = (int) r.range(1, 3), times = (int) r.range(1, 4);
        c.desc << "nothing comes, waiting " << ahead << " ahead " << times << " times";
        c.mark(ahead * 10 + times); c.mark((uint64_t) at);
        for (int i = 0; i < times; ++i) {
            vh::HarnessWait w("a wait with a timeout to time out");
            int64_t t0 = vh::now();
            try {
                int64_t g = bar->wait_for(at + ahead);
                VH_CHECK(false, "wait:premature", "waiting for " << at + ahead << " returned " << g << ", published up to " << at);
            } catch (const timeout_exception &) {}
            VH_CHECK(vh::now() - t0 >= TIMEOUT_NS, "wait:early-timeout", "timed out after " << vh::now() - t0 << " ns");
        }
        vh::count("timeouts_awaited", times);
        return;
    }
    ring_buffer<Ev, 8, S, PT> rb;
    int rounds = c.thorough ? 6000 : 1500, lo = (int) r.below(300), span = (int) r.range(20, 1500);
    int batches = r.chance(1, 2) ? (int) r.range(2, 4) : 1;
    c.desc << rounds << " publications with a long timeout, batches of up to " << batches;
    c.mark(lo / 10); c.mark(span / 50);
    sequence gate;
    rb.add_gating_sequences({&gate});
    auto bar = rb.new_barrier();
    std::vector<std::atomic<int64_t>> when(rounds);
    for (auto &w : when) w.store(0);
    std::atomic<long> late{0}, stalls{0};
    std::atomic<bool> over{false};
    uint64_t seed = r.next();
    {
        vh::WithNoise noise(c);
        Threads th, control;
        control.add([&] {
            while (!over.load()) { int64_t t0 = vh::now(); usleep(2000); if (vh::now() - t0 > 80000000) ++stalls; }
        });
        th.add([&] {
            for (int64_t i = 0; i < rounds && late.load() < 3;) {
                int64_t g, t0 = vh::now();
                try { g = bar->wait_for(i); }
                catch (const timeout_exception &) {
                    int64_t t1 = vh::now(), p = when[i].load();
                    VH_CHECK(t1 - t0 >= LONG, "wait:early-timeout", "timed out after " << t1 - t0 << " ns");
                    if (p && p - t0 < LONG / 8) ++late;
                    vh::progress();
                    continue;
                }
                if (g < i) continue;
                gate.set(g);
                i = g + 1;
                vh::progress();
            }
            if (late.load() >= 3) gate.set(rounds);
        });
        th.add([&] {
            vh::Rng q(seed);
            for (int64_t i = 0; i < rounds && late.load() < 3;) {
                for (int k = 0; gate.get() < i - 1 && late.load() < 3; ++k) if (k > 2000) std::this_thread::yield();
                volatile int d = (int) (lo + q.below(span));
                while (d > 0) d = d - 1;
                int k = (int) std::min<int64_t>(batches > 1 ? q.range(1, batches) : 1, rounds - i);
                int64_t s = rb.next(k);
                for (int64_t j = i; j <= s; ++j) rb[j].set(j, 1);
                if (k == 1) rb.publish(s); else rb.publish(i, s);
                for (int64_t t = vh::now(); i <= s; ++i) when[i].store(t);
            }
        });
        th.join("a published event to wake its waiter");
        over = true;
        control.join("control");
    }
    VH_CHECK(late.load() < 3 || stalls.load() > 0, "wait:late", "a waiter slept until its time was up although its event had been published long before, " << late.load() << " times");
    c.nontrivial = true;
    vh::count("timely_wakeups", rounds);
}
VH_SCENARIO(wait_timed)
{
    if (c.rng.chance(1, 2)) waitTimed<producer_type::single>(c);
    else waitTimed<producer_type::multi>(c);
}

// ---------------------------------------------------------------- C17
// Halts and restarts at arbitrary moments while events flow.
VH_SCENARIO(proc_lifecycle)
{
    auto &r = c.rng;
    Shape sh = randomShape(r);
    auto rig = make(sh);
    describe(c, sh);
    int64_t total = c.thorough ? 1200 : 400;
    Topology t;
    t.throwPerMille = r.chance(1, 2) ? 60 : 0;
    buildTopology(t, *rig, 0, total, r);
    Stage &s = *t.stages[0];
    s.throwStart = r.chance(1, 3);
    s.throwStop = r.chance(1, 3);
    s.throwTimeout = r.chance(1, 2);
    bool aborts = r.chance(1, 4);
    int restarts = (int) r.range(1, 6);
    c.desc << total << " events, " << restarts << " halts, throwing on start/stop/event " << s.throwStart << s.throwStop << t.throwPerMille << (aborts ? ", one foreign exception" : "");
    c.mark(restarts); c.mark(s.throwStart * 2 + s.throwStop); c.mark(t.throwPerMille); c.mark(aborts);
    uint64_t seed = r.next();
    int runs = 0, foreign = 0;
    int64_t resumedAt = 0;
    {
        vh::WithNoise noise(c);
        Threads prod;
        prod.add([&] { produce(*rig, sh.multi, total, 1, seed, 30); });
        if (aborts) s.abortAt = r.range(0, total / 2);
        for (int k = 0; k <= restarts; ++k) {
            Threads cons;
            std::atomic<int> out{0};
            cons.add([&] {
                try { s.proc->run(); out = 1; }
                catch (int v) { out = v; }
            });
            ++runs;
            bool last = k == restarts;
            vh::waitUntil("processor to run", [&] { return s.proc->running() || out.load(); });
            if (!aborts && r.chance(1, 3) && !out.load()) {
                // a second run is refused while the first one is going on
                bool refusedRun = false, raced = false;
                try {
                    if (s.proc->running()) s.proc->run(); else raced = true;
                } catch (const std::runtime_error &) { refusedRun = true; }
                VH_CHECK(raced || refusedRun, "proc:double-run", "a running processor could be run a second time");
            }
            if (r.chance(1, 4) && s.proc->running()) {
                // an alert alone does not end a processor
                int64_t goal = s.seen.load() + r.range(0, 3);
                if (s.proc->alert(true)) {
                    usleep((useconds_t) r.below(300));
                    s.proc->alert(false);
                    vh::count("alerts_while_running");
                    if (!aborts) {
                        vh::waitUntil("a processor to go on after an alert", [&] { return s.seen.load() >= goal || s.proc->seq().get() >= total - 1 || out.load(); });
                        VH_CHECK(!out.load() && s.proc->running(), "proc:ended-by-alert", "an alert ended a processor that nobody halted");
                    }
                }
            }
            if (last) {
                vh::waitUntil("delivery of every event", [&] { return s.proc->seq().get() >= total - 1 || out.load(); });
                if (sh.strat == 5) {
                    int had = s.timeouts.load();
                    vh::waitUntil("an idle processor to be told about timeouts", [&] { return s.timeouts.load() >= had + 4 || out.load(); });
                }
            } else if (r.chance(1, 2)) {
                int64_t goal = s.seen.load() + r.range(0, 40);
                vh::waitUntil("some events", [&] { return s.seen.load() >= goal || s.proc->seq().get() >= total - 1 || out.load(); });
            }
            s.proc->halt();
            cons.join("a halted processor to return");
            VH_CHECK(!s.proc->running(), "proc:running-after-halt", "still reported running");
            VH_CHECK(!s.inRun && s.starts == runs && s.stops == runs, "proc:lifecycle", "after " << runs << " runs: start ran " << s.starts << " times, shutdown " << s.stops);
            if (out.load() == 42) {
                ++foreign;
                // what was handled before the foreign exception in that batch may come again
                s.expect = s.proc->seq().get() + 1;
                for (int64_t j = s.expect; j < total; ++j) s.done[j] = 0;
                s.batchBegin = s.expect;
                if (last) --k;
            } else {
                VH_CHECK(out.load() == 1, "proc:exit", "run ended with " << out.load());
                VH_CHECK(s.proc->seq().get() == s.expect - 1, "proc:sequence-after-halt", "halted having handled up to " << s.expect - 1 << ", reports " << s.proc->seq().get());
            }
            resumedAt = s.expect;
        }
        prod.join("publishing");
    }
    VH_CHECK(s.expect == total, "delivery:count", "handled " << s.expect << " of " << total << " over " << runs << " runs");
    for (int64_t j = 0; j < total; ++j) VH_CHECK(s.done[j] == 1, "delivery:count", "event " << j << " handled " << s.done[j] << " times");
    VH_CHECK(s.startExc == (s.throwStart ? runs : 0) && s.stopExc == (s.throwStop ? runs : 0), "proc:start-stop-exceptions", "start/stop exceptions reported " << s.startExc << "/" << s.stopExc << " in " << runs << " runs");
    c.nontrivial = true;
    vh::count("runs_of_a_processor", runs);
    vh::count("foreign_exceptions", foreign);
    vh::count("handler_exceptions", s.threwTotal);
    vh::count("timeouts_notified", s.timeouts.load());
}

// halt() right after the processor reported itself running must end it, idle or not
VH_SCENARIO(proc_halt_race)
{
    auto &r = c.rng;
    Shape sh{r.chance(1, 2), (int) r.below(NSTRAT), 8};
    auto rig = make(sh);
    describe(c, sh);
    bool noop = r.chance(1, 3);
    int rounds = sh.strat == 3 ? 20 : 60;
    c.desc << rounds << " immediate halts of " << (noop ? "a no-op" : "a batch") << " processor";
    c.mark(noop);
    Topology t;
    t.rig = rig.get();
    Stage s;
    s.topo = &t;
    s.done.assign(rounds + 1, 0);
    s.proc = noop ? rig->noop({}, r.chance(1, 2)) : rig->processor({}, s, r.chance(1, 2));
    rig->addGating({&s.proc->seq()});
    int64_t pub = 0;
    {
        vh::WithNoise noise(c);
        for (int i = 0; i < rounds; ++i) {
            Threads th;
            if (r.chance(1, 3)) {
                // two threads run it at once: one of them is refused
                std::atomic<int> refused{0};
                vh::SpinStart go;
                auto one = [&] { go.arrive(); try { s.proc->run(); } catch (const std::runtime_error &) { ++refused; } };
                Threads two;
                two.add(one); two.add(one);
                go.release(2);
                vh::waitUntil("one of two runs to be refused", [&] { return refused.load() > 0 && s.proc->running(); });
                s.proc->halt();
                two.join("a halted processor to return");
                VH_CHECK(refused.load() == 1, "proc:double-run", refused.load() << " of two runs were refused");
                vh::count("runs_at_once");
            }
            th.add([&] { s.proc->run(); });
            vh::waitUntil("processor to run", [&] { return s.proc->running(); });
            if (r.chance(1, 2)) {
                int64_t q = rig->next(1);
                rig->slot(q).set(q, 4);
                rig->publish(q);
                ++pub;
                if (r.chance(1, 2)) vh::waitUntil("an event to be consumed", [&] { return s.proc->seq().get() >= q; });
            }
            if (r.chance(1, 3)) usleep(r.below(120));
            s.proc->halt();
            th.join("a halted processor to return");
            VH_CHECK(!s.proc->running(), "proc:running-after-halt", "still reported running");
            vh::progress();
            // keep room for the producer
            if (pub - 1 - s.proc->seq().get() >= 6) {
                Threads t2;
                t2.add([&] { s.proc->run(); });
                vh::waitUntil("the backlog to be consumed", [&] { return s.proc->seq().get() >= pub - 1; });
                s.proc->halt();
                t2.join("a halted processor to return");
            }
        }
    }
    if (!noop) VH_CHECK(s.starts == s.stops && s.expect == s.proc->seq().get() + 1, "proc:lifecycle", "starts " << s.starts << " stops " << s.stops);
    c.nontrivial = true;
    vh::count("immediate_halts", rounds);
}
