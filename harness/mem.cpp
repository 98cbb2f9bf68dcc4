// C06/C07 the bounded queue, C08 in-memory delivery, C09 poller life cycle.
#include <chrono>
#include "lin.hpp"
#include "moncontainer.hpp"
#include <deque>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/mem_core/concurrent_middleware_provider.h>
#include <klepsydra/mem_core/safe_queue.h>

using namespace kpsr;
using namespace kpsr::mem;

namespace {
typedef std::shared_ptr<long> Item;
typedef SafeQueue<Item> Queue;
Item item(long v) { return std::make_shared<long>(v); }

enum { PUSH, PUSH_RV, MOVE_PUSH, TRY_PUSH, TRY_PUSH_RV, TRY_MOVE_PUSH, FORCE, POP, MOVE_POP, TRY_POP, TRY_MOVE_POP, TO_POP, TO_MOVE_POP, SIZE, EMPTY, FULL, NOPS };
const char *names[] = {"push", "push&&", "move_push", "try_push", "try_push&&", "try_move_push", "force_move_push", "pop", "move_pop",
                       "try_pop", "try_move_pop", "timeout_pop", "timeout_move_pop", "size", "empty", "full"};

void doOp(Queue &q, vh::Op &o, uint64_t timeoutUs) {
    o.call = vh::now();
    Item it;
    bool gotItem = false;
    switch (o.kind) {
    case PUSH: { Item x = item(o.arg); o.ok = q.push(x); break; }
    case PUSH_RV: o.ok = q.push(item(o.arg)); break;
    case MOVE_PUSH: o.ok = q.move_push(item(o.arg)); break;
    case TRY_PUSH: { Item x = item(o.arg); o.ok = q.try_push(x); break; }
    case TRY_PUSH_RV: o.ok = q.try_push(item(o.arg)); break;
    case TRY_MOVE_PUSH: o.ok = q.try_move_push(item(o.arg)); break;
    case FORCE: o.res = q.force_move_push(item(o.arg)); o.ok = true; break;
    case POP: q.pop(it); o.ok = gotItem = true; break;
    case MOVE_POP: q.move_pop(it); o.ok = gotItem = true; break;
    case TRY_POP: o.ok = gotItem = q.try_pop(it); break;
    case TRY_MOVE_POP: o.ok = gotItem = q.try_move_pop(it); break;
    case TO_POP: o.ok = gotItem = q.timeout_pop(it, timeoutUs); break;
    case TO_MOVE_POP: o.ok = gotItem = q.timeout_move_pop(it, timeoutUs); break;
    case SIZE: o.res = (long) q.size(); o.ok = true; break;
    case EMPTY: o.ok = q.empty(); break;
    case FULL: o.ok = q.full(); break;
    }
    o.ret = vh::now();
    if (gotItem) {
        VH_CHECK(it != nullptr, "queue:empty-item", names[o.kind] << " delivered nothing");
        o.res = *it;
    }
}
struct QueueModel {
    std::deque<long> v;
    size_t cap; // 0: unlimited
    bool full() const { return cap && v.size() >= cap; }
    bool apply(const vh::Op &op, const std::vector<vh::Op> &, size_t) {
        switch (op.kind) {
        case PUSH: case PUSH_RV: case MOVE_PUSH:
            if (full() || !op.ok) return false;
            v.push_back(op.arg);
            return true;
        case TRY_PUSH: case TRY_PUSH_RV: case TRY_MOVE_PUSH:
            if (op.ok == full()) return false;
            if (op.ok) v.push_back(op.arg);
            return true;
        case FORCE: {
            long d = 0;
            while (full()) { v.pop_front(); ++d; }
            v.push_back(op.arg);
            return d == op.res;
        }
        case SIZE: return (long) v.size() == op.res;
        case EMPTY: return v.empty() == op.ok;
        case FULL: return full() == op.ok;
        default:
            if (!op.ok) return v.empty();
            if (v.empty() || v.front() != op.res) return false;
            v.pop_front();
            return true;
        }
    }
    void key(std::string &k) const { for (long x : v) k.append((const char *) &x, sizeof x); }
};
} // namespace

VH_SCENARIO(queue_lin)
{
    auto &r = c.rng;
    size_t cap = r.chance(1, 6) ? 0 : (size_t) r.range(1, 3);
    int T = (int) r.range(2, 4), N = (int) r.range(2, 4);
    c.desc << "capacity " << cap << " threads " << T << ": ";
    Queue q(cap);
    QueueModel m{{}, cap};
    int pre = (int) r.below((cap ? cap : 2) + 1);
    for (int i = 0; i < pre; ++i) { q.push(item(900 + i)); m.v.push_back(900 + i); }
    std::vector<std::vector<vh::Op>> h(T + 1);
    int style = (int) r.below(4);
    for (int t = 0; t < T; ++t) {
        for (int i = 0; i < N; ++i) {
            vh::Op o;
            o.thread = t;
            o.arg = (t + 1) * 100 + i;
            o.kind = style == 0 ? (int) r.below(FORCE + 1) : style == 1 ? (int) r.range(POP, TO_MOVE_POP) : (int) r.below(NOPS);
            if (style <= 1 && r.chance(1, 2)) o.kind = (int) r.below(NOPS);
            if (style == 3) { static const int hot[] = {TO_POP, TO_MOVE_POP, PUSH, TRY_PUSH, MOVE_PUSH, TRY_POP, POP}; o.kind = hot[r.below(7)]; }
            c.mark(o.kind);
            c.desc << names[o.kind] << ' ';
            h[t].push_back(o);
        }
        c.desc << "| ";
    }
    c.mark(cap * 100 + pre);
    uint64_t toUs = r.chance(1, 4) ? 0 : r.below(400);
    std::atomic<int> left{T};
    vh::SpinStart go;
    long rescues = 0;
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                go.arrive();
                for (auto &o : h[t]) doOp(q, o, toUs);
                left.fetch_sub(1);
            });
        go.release(T);
        // unblock scripts whose blocking operations have no partner; this is part of the history
        for (int i = 0; left.load() > 0; ++i) {
            usleep(300);
            if (i < 5 || left.load() == 0) continue;
            if (rescues > 28) { // with this much time, whoever was woken has run; otherwise a wake-up was lost: let the watchdog judge
                vh::HarnessWait w("operations that have a partner");
                for (int k = 0; left.load() > 0; ++k) {
                    if (k < 8) {
                        vh::Op o;
                        o.thread = T;
                        o.arg = 6000 + i + k;
                        o.kind = k % 2 ? TRY_POP : TRY_PUSH;
                        doOp(q, o, 0);
                        h[T].push_back(o);
                        vh::progress();
                    }
                    int before = left.load();
                    for (int j = 0; j < 1500 && left.load() == before; ++j) usleep(1000);
                }
                break;
            }
            vh::Op o;
            o.thread = T;
            o.arg = 5000 + i;
            o.kind = i % 2 ? TRY_POP : TRY_PUSH;
            doOp(q, o, 0);
            h[T].push_back(o);
            ++rescues;
        }
        for (auto &t : th) t.join();
    }
    std::vector<vh::Op> all;
    for (auto &v : h) all.insert(all.end(), v.begin(), v.end());
    for (;;) {
        vh::Op o;
        o.thread = 99;
        o.kind = TRY_POP;
        doOp(q, o, 0);
        all.push_back(o);
        if (!o.ok) break;
    }
    size_t overlaps = 0;
    for (auto &a : all) for (auto &b : all) if (a.thread < b.thread && a.call <= b.ret && b.call <= a.ret) ++overlaps;
    int v = vh::linearizable(all, m);
    vh::count("histories");
    vh::count("history_operations", all.size());
    vh::count("overlapping_pairs", overlaps);
    vh::count("unblocked_by_harness", rescues);
    if (v < 0) vh::count("histories_given_up");
    VH_CHECK(v != 0, "queue:not-linearizable", "history has no sequential explanation (capacity " << cap << ", prefill " << pre << ")\n" << vh::showHistory(all, names));
    c.nontrivial = overlaps > 0;
}

// Producers and consumers, blocking or not: every item exactly once, in order, nobody left asleep.
VH_SCENARIO(queue_stress)
{
    auto &r = c.rng;
    size_t cap = r.chance(1, 8) ? 0 : (size_t) r.range(1, r.chance(1, 2) ? 2 : 8);
    int P = (int) r.range(1, 3), C = (int) r.range(1, 3);
    long N = c.thorough ? 3000 : 700;
    int pushStyle = (int) r.below(7), popStyle = (int) r.below(7); // FORCE excluded, index 6: mixed
    c.desc << "capacity " << cap << ", " << P << " producers (" << (pushStyle == 6 ? "mixed" : names[pushStyle]) << "), " << C << " consumers ("
           << (popStyle == 6 ? "mixed" : names[POP + popStyle]) << "), " << N << " items each";
    c.mark(cap * 1000 + P * 100 + C * 10); c.mark(pushStyle * 7 + popStyle);
    Queue q(cap);
    std::vector<std::vector<long>> got(C);
    uint64_t base = r.next();
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> prod, cons;
        for (int p = 0; p < P; ++p) prod.emplace_back([&, p] {
            vh::Rng g(base + p);
            for (long i = 0; i < N; ++i) {
                vh::Op o;
                o.arg = (p + 1) * 10000000L + i;
                do {
                    o.kind = pushStyle < 6 ? pushStyle : (int) g.below(6);
                    doOp(q, o, 0);
                    if (!o.ok) std::this_thread::yield();
                } while (!o.ok);
                vh::progress();
            }
        });
        for (int k = 0; k < C; ++k) cons.emplace_back([&, k] {
            vh::Rng g(base + 100 + k);
            for (;;) {
                vh::Op o;
                o.kind = popStyle < 6 ? POP + popStyle : POP + (int) g.below(6);
                doOp(q, o, g.below(60));
                if (!o.ok) { std::this_thread::yield(); continue; }
                if (o.res < 0) break;
                got[k].push_back(o.res);
                if (cap) { size_t n = q.size(); VH_CHECK(n <= cap, "queue:over-capacity", n << " items in a queue of " << cap); }
                vh::progress();
            }
        });
        { vh::HarnessWait w("producers of a queue being emptied"); for (auto &t : prod) t.join(); }
        for (int k = 0; k < C; ++k) q.push(item(-1));
        { vh::HarnessWait w("consumers of a queue being filled"); for (auto &t : cons) t.join(); }
    }
    std::vector<std::vector<char>> seen(P, std::vector<char>(N, 0));
    long n = 0;
    for (auto &v : got) {
        std::vector<long> last(P, -1);
        for (long x : v) {
            long p = x / 10000000 - 1, i = x % 10000000;
            VH_CHECK(p >= 0 && p < P && i < N, "queue:invented", "popped " << x << ", never pushed");
            VH_CHECK(!seen[p][i], "queue:duplicate", "item " << i << " of producer " << p << " popped twice");
            seen[p][i] = 1;
            VH_CHECK(i > last[p], "queue:order", "a consumer got item " << i << " of producer " << p << " after " << last[p]);
            last[p] = i;
            ++n;
        }
    }
    VH_CHECK(n == P * N && q.empty(), "queue:lost", "popped " << n << " of " << P * N);
    vh::count("items_through_queue", n);
    c.nontrivial = P + C > 2;
}

// Overwriting pushes: what they report as discarded is exactly what is missing.
VH_SCENARIO(queue_force)
{
    auto &r = c.rng;
    size_t cap = (size_t) r.range(1, 6);
    int P = (int) r.range(1, 3);
    long N = c.thorough ? 4000 : 1000;
    c.desc << "capacity " << cap << ", " << P << " overwriting producers, " << N << " items each";
    c.mark(cap * 10 + P);
    Queue q(cap);
    std::atomic<long> discarded{0};
    std::atomic<bool> doneProd{false};
    std::vector<long> got;
    uint64_t base = r.next();
    int slow = (int) r.below(3);
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> prod;
        for (int p = 0; p < P; ++p) prod.emplace_back([&, p] {
            long d = 0;
            for (long i = 0; i < N; ++i) { d += q.force_move_push(item((p + 1) * 10000000L + i)); vh::progress(); }
            discarded.fetch_add(d);
        });
        std::thread cons([&] {
            vh::Rng g(base);
            for (;;) {
                bool fin = doneProd.load();
                Item it;
                bool ok = g.chance(1, 2) ? q.timeout_move_pop(it, 50) : q.try_pop(it);
                if (ok) got.push_back(*it);
                else if (fin) break;
                VH_CHECK(q.size() <= cap, "queue:over-capacity", "more than " << cap << " items");
                if (slow && g.chance(slow, 8)) usleep(g.below(80));
            }
        });
        for (auto &t : prod) t.join();
        doneProd = true;
        cons.join();
    }
    std::vector<long> last(P, -1);
    for (long x : got) {
        long p = x / 10000000 - 1, i = x % 10000000;
        VH_CHECK(p >= 0 && p < P && i > last[p], "queue:order", "item " << i << " of producer " << p << " popped after " << last[p]);
        last[p] = i;
    }
    VH_CHECK((long) got.size() + discarded.load() == P * N, "queue:discard-count", "pushed " << P * N << ", popped " << got.size() << ", reported discarded " << discarded.load());
    if (P == 1) VH_CHECK(last[0] == N - 1, "queue:newest-lost", "the newest item was not kept");
    vh::count("items_discarded", discarded.load());
    vh::count("items_through_queue", got.size());
    c.nontrivial = discarded.load() > 0;
    c.mark(discarded.load());
}

// Copies, moves, swaps and assignments against deques.
VH_SCENARIO(queue_values)
{
    auto &r = c.rng;
    struct M { std::unique_ptr<Queue> q; QueueModel m; };
    std::vector<M> qs;
    auto fresh = [&] { size_t cap = (size_t) r.below(4); return M{std::make_unique<Queue>(cap), QueueModel{{}, cap}}; };
    qs.push_back(fresh());
    qs.push_back(fresh());
    int steps = (int) r.range(20, 90), copies = 0;
    long id = 0;
    c.desc << steps << " steps: ";
    for (int s = 0; s < steps; ++s) {
        size_t a = r.below(qs.size()), b = r.below(qs.size());
        M &x = qs[a], &y = qs[b];
        int what = (int) r.below(14);
        c.mark(what * 16 + a * 4 + b);
        switch (what) {
        case 0: // copy construction
            if (qs.size() < 4) { M z{std::make_unique<Queue>(*x.q), x.m}; qs.push_back(std::move(z)); ++copies; c.desc << "copy " << a << ' '; }
            break;
        case 1: // move construction
            if (qs.size() < 4) {
                M z{std::make_unique<Queue>(std::move(*x.q)), x.m};
                if (r.chance(1, 2)) x = fresh(); else x.m.v.clear();
                qs.push_back(std::move(z));
                ++copies;
                c.desc << "move " << a << ' ';
            }
            break;
        case 2: // assignment takes the content and leaves the source alone
            if (y.m.cap && y.m.v.size() > y.m.cap) break;
            *x.q = *y.q;
            x.m.v = std::deque<long>(y.m.v);
            c.desc << a << "=" << b << ' ';
            break;
        case 3:
            if (a == b) {                   // a queue moved to itself stays usable, whatever it holds then
                *x.q = std::move(*y.q);
                if (x.q->size() == 0) x.m.v.clear();
                c.desc << a << "=move itself ";
                vh::count("queues_moved_to_themselves");
                break;
            }
            *x.q = std::move(*y.q);
            x.m.v = y.m.v;
            if (r.chance(1, 2)) y = fresh(); else y.m.v.clear();
            c.desc << a << "=move " << b << ' ';
            break;
        case 4:
            if (r.chance(1, 2)) x.q->swap(*y.q); else kpsr::mem::swap(*x.q, *y.q);
            std::swap(x.m.v, y.m.v);
            c.desc << a << "<->" << b << ' ';
            break;
        case 5:
            x.m.cap = r.below(5);
            x.q->set_max_num_items((unsigned) x.m.cap);
            c.desc << "cap " << a << ":" << x.m.cap << ' ';
            break;
        default: {
            vh::Op o;
            o.arg = ++id;
            o.kind = (int) r.below(NOPS);
            // capacity after an assignment is not documented to follow: only use what cannot block
            if (what < 8) { x.q->set_max_num_items((unsigned) x.m.cap); }
            if ((o.kind <= MOVE_PUSH && x.m.full()) || ((o.kind == POP || o.kind == MOVE_POP) && x.m.v.empty())) break;
            doOp(*x.q, o, 0);
            QueueModel before = x.m;
            VH_CHECK(x.m.apply(o, {}, 0), "queue:model", names[o.kind] << "(" << o.arg << ") -> " << o.ok << " " << o.res << " on a queue of " << before.v.size() << " items, limit " << before.cap);
            vh::count("model_operations");
        }
        }
        for (auto &z : qs) VH_CHECK(z.q->size() == z.m.v.size() && z.q->empty() == z.m.v.empty() && z.q->full() == z.m.full(), "queue:model-size",
                                    "queue holds " << z.q->size() << " items, expected " << z.m.v.size() << " (limit " << z.m.cap << ")");
    }
    for (auto &z : qs) for (long want : z.m.v) {
        Item it;
        VH_CHECK(z.q->try_pop(it) && *it == want, "queue:content", "expected item " << want);
    }
    c.nontrivial = copies > 0;
    vh::count("queues_copied_or_moved", copies);
}

// Two queues swapped and assigned from several threads while others use them.
VH_SCENARIO(queue_exchange)
{
    auto &r = c.rng;
    size_t cap = r.chance(1, 2) ? 0 : (size_t) r.range(1, 4);
    int N = c.thorough ? 1500 : 400;
    int mode = (int) r.below(3); // 0 swaps only (nothing may get lost), 1 copy assignment, 2 move assignment
    int S = (int) r.range(1, 2), P = (int) r.range(1, 2);
    c.desc << "capacity " << cap << ", " << S + 1 << " threads exchanging (" << (mode == 0 ? "swap" : mode == 1 ? "assign" : "move-assign") << "), " << P << " pushing, 1 popping";
    c.mark(cap * 100 + mode * 10 + S * 3 + P);
    Queue a(cap), b(cap);
    std::atomic<int> pushing{P};
    std::atomic<long> popped{0};
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> th;
        for (int p = 0; p < P; ++p) th.emplace_back([&, p] {
            for (int i = 0; i < N; ++i) {
                Queue &q = i % 2 ? a : b;
                if (mode == 0 && i % 5 == 0) q.push(item(p * 100000 + i)); else while (!q.try_push(item(p * 100000 + i))) std::this_thread::yield();
                vh::progress();
            }
            pushing.fetch_sub(1);
        });
        std::atomic<int> exchanging{S + 1};
        for (int s = 0; s <= S; ++s) th.emplace_back([&, s] {
            for (int i = 0; i < N || pushing.load() > 0; ++i) {
                Queue &x = s % 2 ? a : b, &y = s % 2 ? b : a;
                if (mode == 0) x.swap(y);
                else if (mode == 1) { if (i % 3) x.swap(y); else x = y; }
                else { if (i % 3) x.swap(y); else x = std::move(y); }
                vh::progress();
                if (i > N) usleep(50);
            }
            exchanging.fetch_sub(1);
        });
        th.emplace_back([&] {
            long n = 0;
            while (pushing.load() > 0 || exchanging.load() > 0) {
                Item it;
                if (a.try_pop(it)) { VH_CHECK(it != nullptr, "queue:empty-item", "popped nothing"); ++n; }
                if (b.timeout_pop(it, 20)) { VH_CHECK(it != nullptr, "queue:empty-item", "popped nothing"); ++n; }
            }
            popped = n;
        });
        vh::HarnessWait w("threads exchanging queues");
        for (auto &t : th) t.join();
    }
    long left = (long) (a.size() + b.size());
    if (mode == 0) VH_CHECK(popped.load() + left == (long) P * N, "queue:exchange-lost", "pushed " << P * N << ", popped " << popped.load() << ", left " << left);
    c.nontrivial = true;
    vh::count("exchanges", N);
}

// ---------------------------------------------------------------- C07: blocking and timing
VH_SCENARIO(queue_wake)
{
    auto &r = c.rng;
    int kind = (int) r.below(6);
    uint64_t delay = r.below(3) == 0 ? 0 : r.below(900);
    size_t cap = (size_t) r.range(1, 3);
    c.mark(kind * 10 + cap); c.mark(delay / 50);
    Queue q(cap);
    std::atomic<bool> woke{false};
    std::atomic<long> got{-1};
    vh::WithNoise noise(c);
    switch (kind) {
    case 0: { // nothing arrives: false, not before the timeout
        uint64_t us = r.range(0, 1500);
        bool mv = r.chance(1, 2);
        c.desc << "timeout of " << us << "us on an empty queue";
        Item it;
        int64_t t0 = vh::now();
        bool ok = mv ? q.timeout_move_pop(it, us) : q.timeout_pop(it, us);
        int64_t dt = vh::now() - t0;
        VH_CHECK(!ok && !it, "queue:timeout-result", "a timed pop of an empty queue reported an item");
        VH_CHECK(dt >= (int64_t) us * 1000, "queue:timeout-early", "gave up after " << dt << " ns of " << us << " us");
        break;
    }
    case 1: { // an item arrives well before the timeout
        bool mv = r.chance(1, 2);
        c.desc << "item pushed after " << delay << "us while waiting";
        std::thread t([&] { Item it; bool ok = mv ? q.timeout_move_pop(it, 60000000) : q.timeout_pop(it, 60000000); got = ok ? *it : -2; woke = true; });
        usleep(delay);
        q.push(item(7));
        vh::waitUntil("a timed pop whose item arrived", [&] { return woke.load(); });
        t.join();
        VH_CHECK(got == 7, "queue:timeout-missed", "the timed pop returned " << got);
        break;
    }
    case 2: { // a blocked pop is woken by every kind of push
        int k = (int) r.below(FORCE + 1);
        c.desc << "blocked pop, " << names[k];
        c.mark(k);
        std::thread t([&] { Item it; if (cap % 2) q.pop(it); else q.move_pop(it); got = *it; woke = true; });
        usleep(delay);
        vh::Op o; o.kind = k; o.arg = 9;
        doOp(q, o, 0);
        vh::waitUntil("a blocked pop whose item arrived", [&] { return woke.load(); });
        t.join();
        VH_CHECK(got == 9, "queue:wrong-item", "popped " << got);
        break;
    }
    case 3: { // a blocked push is woken by every kind of pop
        int k = (int) r.range(POP, TO_MOVE_POP), pk = (int) r.below(MOVE_PUSH + 1);
        c.desc << "blocked " << names[pk] << ", " << names[k];
        c.mark(k * 10 + pk);
        for (size_t i = 0; i < cap; ++i) q.push(item(100 + i));
        std::thread t([&] { vh::Op o; o.kind = pk; o.arg = 9; doOp(q, o, 0); woke = true; });
        usleep(delay);
        VH_CHECK(!woke.load() && q.size() <= cap, "queue:not-blocking", "a push into a full queue did not block");
        vh::Op o; o.kind = k;
        doOp(q, o, 1000);
        VH_CHECK(o.ok && o.res == 100, "queue:wrong-item", "popped " << o.res);
        vh::waitUntil("a blocked push that has room", [&] { return woke.load(); });
        t.join();
        VH_CHECK(q.size() == cap, "queue:lost", "size " << q.size());
        break;
    }
    case 4: { // raising the limit makes room
        size_t to = r.chance(1, 2) ? cap + 1 : 0;
        c.desc << "blocked push, limit raised to " << to;
        for (size_t i = 0; i < cap; ++i) q.push(item(100 + i));
        std::thread t([&] { q.push(item(9)); woke = true; });
        usleep(delay);
        q.set_max_num_items((unsigned) to);
        vh::waitUntil("a blocked push after the limit was raised", [&] { return woke.load(); });
        t.join();
        break;
    }
    case 5: { // swapping with an emptier / fuller queue serves whoever is blocked
        bool popper = r.chance(1, 2);
        c.desc << "blocked " << (popper ? "pop" : "push") << ", swap";
        c.mark(popper);
        Queue other(cap);
        if (popper) other.push(item(9)); else for (size_t i = 0; i < cap; ++i) q.push(item(100 + i));
        std::thread t([&] { if (popper) { Item it; q.pop(it); } else q.push(item(9)); woke = true; });
        usleep(delay);
        if (r.chance(1, 2)) q.swap(other); else other.swap(q);
        vh::waitUntil("an operation the swap made possible", [&] { return woke.load(); });
        t.join();
        break;
    }
    }
    c.nontrivial = true;
    vh::count(kind == 0 ? "timeouts_observed" : "wakeups_observed");
}

// Several operations blocked at once, and a burst of what lets them go on: afterwards nobody is blocked
// on a queue that has room or items for him.
VH_SCENARIO(queue_crowd)
{
    auto &r = c.rng;
    const bool pushers = r.chance(1, 2);
    const int W = (int) r.range(2, 5);
    const size_t cap = (size_t) r.range(1, 5);
    const int B = (int) r.range(1, pushers ? (long) cap : W + 1);
    const int twist = (int) r.below(8);        // 0: a raised limit, 1: a swap, 2: an assignment, 3 and 4: moved away, in the midst of the burst
    const uint64_t delay = r.chance(1, 3) ? 0 : r.below(900), gap = r.chance(2, 3) ? 0 : r.below(60);
    c.desc << W << (pushers ? " pushes" : " pops") << " blocked, capacity " << cap << ", burst of " << B << (twist < 5 ? " with twist " + std::to_string(twist) : std::string());
    c.mark(W * 1000 + cap * 100 + B * 10 + twist); c.mark(pushers); c.mark(delay / 100);
    Queue q(cap), other(cap);
    if (pushers) for (size_t i = 0; i < cap; ++i) q.push(item(100 + i));
    if (!pushers) for (size_t i = r.below(cap + 1); i; --i) other.push(item(200 + i));
    std::atomic<int> done{0};
    vh::WithNoise noise(c);
    std::vector<std::thread> th;
    for (int w = 0; w < W; ++w) {
        int k = pushers ? (int) r.below(MOVE_PUSH + 1) : (int) (r.chance(1, 3) ? r.range(TO_POP, TO_MOVE_POP) : r.range(POP, MOVE_POP));
        th.emplace_back([&, k, w] { vh::Op o; o.kind = k; o.arg = w; doOp(q, o, 3600000000ull); done.fetch_add(1); });
    }
    usleep(delay);
    auto settled = [&](const char *when) {
        vh::waitUntil(when, [&] { return done.load() == W || (pushers ? q.full() : q.empty()); });
    };
    auto help = [&] {
        vh::Op o;
        o.arg = 9;
        o.kind = pushers ? (int) r.range(TRY_POP, TO_MOVE_POP) : (int) r.range(PUSH, FORCE);
        if (pushers && (twist < 1 || twist > 4) && r.chance(1, 3)) { // there is always something to pop then
            if (done.load() == 0) o.kind = (int) r.range(POP, MOVE_POP);
        }
        if (!pushers && o.kind <= MOVE_PUSH && q.full()) o.kind = FORCE;
        doOp(q, o, 1000);
    };
    for (int b = 0; b < B; ++b) {
        help();
        if (gap) usleep(gap);
        if (b != B / 2) continue;
        if (twist == 0) q.set_max_num_items((unsigned) cap + (unsigned) r.below(3));
        if (twist == 1) { if (r.chance(1, 2)) q.swap(other); else other.swap(q); }
        if (twist == 2) { if (r.chance(1, 2)) q = other; else q = std::move(other); }
        if (twist == 3) Queue taken(std::move(q)); // and with it what filled the queue
        if (twist == 4) other = std::move(q);
    }
    settled("the operations that a burst has made possible");
    vh::count("crowd_woken_by_burst", done.load());
    while (done.load() < W) {
        help();
        settled("a blocked operation that has become possible");
    }
    for (auto &t : th) t.join();
    c.nontrivial = true;
    vh::count("wakeups_observed", W);
}

// ---------------------------------------------------------------- C08
namespace {
struct Msg {
    long producer = -1, id = -1;
    long long born = 0;
    std::vector<long> body;
    bool good() const {
        if ((long) body.size() != 1 + id % 5) return false;
        for (long b : body) if (b != producer * 1000 + id) return false;
        return true;
    }
    void set(long p, long i) {
        producer = p;
        id = i;
        born = (long long) TimeUtils::getCurrentNanosecondsAsLlu();
        body.assign(1 + i % 5, p * 1000 + i);
    }
};
struct Tap {
    std::string name;
    std::vector<long> last;
    long n = 0;
    std::atomic<long> seen{0};
    vh::Rng q{1};
    int slow = 0;
    long stallAt = -1, stallMs = 0; // one event takes very long
    std::atomic<bool> dead{false};
    std::atomic<int> inside{0};
    long long underway = 0; // time since each event was made, until it got here
    void operator()(const Msg &m) {
        underway += (long long) TimeUtils::getCurrentNanosecondsAsLlu() - m.born;
        VH_CHECK(!dead.load(std::memory_order_relaxed), "mem:after-end", "a listener ran after its middleware was stopped or destroyed");
        VH_CHECK(inside.fetch_add(1, std::memory_order_relaxed) == 0, "mem:concurrent-listener", "two events were delivered to one listener at the same time");
        VH_CHECK(m.producer >= 0 && m.producer < (long) last.size() && m.good(), "mem:content", "event " << m.producer << "/" << m.id << " arrived damaged");
        VH_CHECK(m.id > last[m.producer], "mem:order", "listener " << name << " got event " << m.id << " of publisher " << m.producer << " after " << last[m.producer]);
        last[m.producer] = m.id;
        ++n;
        if (slow && q.chance(slow, 100)) { usleep(q.below(120)); VH_CHECK(m.good(), "mem:content-changed", "event changed while it was being handled"); }
        if (n == stallAt) { usleep(stallMs * 1000); VH_CHECK(m.good(), "mem:content-changed", "event changed while it was being handled"); }
        inside.fetch_sub(1, std::memory_order_relaxed);
        seen.store(n, std::memory_order_release);
        vh::progress();
    }
};
struct Setup {
    bool conc, discard;
    int queueSize, poolSize, listeners, producers;
    bool cloner, init, sharedPtr;
};
Setup randomSetup(vh::Rng &r, bool allowConc) {
    Setup s;
    s.conc = allowConc && r.chance(1, 2);
    s.discard = r.chance(1, 2);
    s.queueSize = (int) r.range(1, r.chance(1, 3) ? 40 : 6);
    s.poolSize = r.chance(1, 4) ? 0 : (int) r.range(1, 12);
    s.listeners = (int) r.range(1, 3);
    s.producers = (int) r.range(1, 3);
    s.cloner = r.chance(1, 3);
    s.init = r.chance(1, 2);
    s.sharedPtr = r.chance(1, 2);
    return s;
}
std::unique_ptr<InMemoryMiddlewareProvider<Msg>> makeProvider(const Setup &s, unsigned sleepUs, Container *box = nullptr) {
    std::function<void(Msg &)> fi;
    std::function<void(const Msg &, Msg &)> fc;
    if (s.init) fi = [](Msg &m) { m.body.reserve(8); };
    if (s.cloner) fc = [](const Msg &a, Msg &b) { b.producer = a.producer; b.id = a.id; b.born = a.born; b.body = a.body; };
    if (s.conc) return std::unique_ptr<InMemoryMiddlewareProvider<Msg>>(new ConcurrentMiddlewareProvider<Msg>(box, "ev", s.queueSize, s.poolSize, fi, fc, s.discard, sleepUs));
    return std::unique_ptr<InMemoryMiddlewareProvider<Msg>>(new BasicMiddlewareProvider<Msg>(box, "ev", s.queueSize, s.poolSize, fi, fc, s.discard));
}
void describe(vh::Case &c, const Setup &s) {
    c.desc << (s.conc ? "concurrent" : "basic") << (s.discard ? " discarding" : " blocking") << " queue " << s.queueSize << " pool " << s.poolSize << " listeners " << s.listeners
           << " producers " << s.producers << " ";
    c.mark(s.conc * 2 + s.discard); c.mark(s.queueSize * 100 + s.poolSize); c.mark(s.listeners * 10 + s.producers); c.mark(s.cloner * 4 + s.init * 2 + s.sharedPtr);
}
void publishOne(Publisher<Msg> *p, long who, long id, vh::Rng &q) {
    Msg m;
    m.set(who, id);
    switch (q.below(3)) {
    case 0: p->publish(m); break;
    case 1: p->processAndPublish([&](Msg &x) { x.set(who, id); }); break;
    default: { std::shared_ptr<const Msg> s = std::make_shared<Msg>(m); p->publish(s); }
    }
    m.set(77, 777777);
}
template<class P> void startProvider(P &p) {
    try { p.start(); }
    catch (const std::runtime_error &) { // 100 ms without being scheduled: documented failure, the thread still comes up
        vh::count("start_timeouts");
    }
    vh::waitUntil("poller to run", [&] { return p.isRunning(); });
}
} // namespace

#ifndef NO_CONCURRENT
#define NO_CONCURRENT false
#endif
VH_SCENARIO(mem_delivery)
{
    auto &r = c.rng;
    Setup s = randomSetup(r, !NO_CONCURRENT);
    describe(c, s);
    long N = c.thorough ? 1500 : 300;
    bool startLate = s.discard && r.chance(1, 3);
    c.desc << N << " events each" << (startLate ? ", started late" : "");
    std::vector<std::unique_ptr<Tap>> taps;
    MonContainer box;
    bool contained = r.chance(1, 2);
    long long allIn = 0, startedAt = 0;
    if (contained) c.desc << ", in a container";
    auto prov = makeProvider(s, 100, contained ? &box : nullptr);
    for (int i = 0; i < s.listeners; ++i) {
        taps.emplace_back(new Tap());
        Tap *t = taps.back().get();
        t->name = vh::nameOf(s.listeners + (int) N, "l", i);
        t->last.assign(s.producers, -1);
        t->q = vh::Rng(r.next());
        t->slow = r.chance(1, 2) ? 5 : 0;
        if (s.sharedPtr) prov->getSubscriber()->registerSharedPtrListener(t->name, [t](const std::shared_ptr<const Msg> &m) { (*t)(*m); });
        else prov->getSubscriber()->registerListener(t->name, [t](const Msg &m) { (*t)(m); });
    }
    if (r.chance(1, 5)) {
        Tap *t = taps[r.below(taps.size())].get();
        t->stallAt = r.range(1, s.discard ? 20 : N / 2);
        t->stallMs = r.chance(1, 6) ? r.range(100, 300) : r.range(5, 60);
        c.desc << ", event " << t->stallAt << " of " << t->name << " takes " << t->stallMs << " ms";
    }
    long total = N * s.producers;
    uint64_t base = r.next();
    auto *pub = prov->getPublisher();
    {
        vh::WithNoise noise(c);
        if (!startLate) startProvider(*prov);
        std::vector<std::thread> th;
        for (int p = 0; p < s.producers; ++p) th.emplace_back([&, p] {
            vh::Rng q(base + p);
            for (long i = 0; i < N; ++i) { publishOne(pub, p, i, q); vh::progress(); if (q.chance(1, 80)) usleep(q.below(200)); }
        });
        { vh::HarnessWait w("publishers"); for (auto &t : th) t.join(); }
        allIn = (long long) TimeUtils::getCurrentNanosecondsAsLlu();
        if (startLate) {
            if (r.chance(1, 2)) usleep(r.below(3000));
            startedAt = (long long) TimeUtils::getCurrentNanosecondsAsLlu();
            startProvider(*prov);
        }
        for (auto &t : taps)
            vh::waitUntil("every event to be delivered or counted as discarded", [&] { return t->seen.load(std::memory_order_acquire) + (long) pub->publicationStats.totalDiscardedEvents >= total; });
        usleep(300);
        prov->stop();
        for (auto &t : taps) t->dead = true;
    }
    long disc = pub->publicationStats.totalDiscardedEvents;
    if (!s.discard) VH_CHECK(disc == 0, "mem:discard-while-blocking", disc << " events discarded by a blocking publisher");
    for (auto &t : taps) {
        VH_CHECK(t->n + disc == total, "mem:accounting", "published " << total << ", delivered " << t->n << ", discarded " << disc);
        if (s.producers == 1) VH_CHECK(t->last[0] == N - 1, "mem:newest-lost", "the newest event was not delivered");
        auto st = prov->getSubscriber()->getSubscriptionStats(t->name);
        VH_CHECK(st && st->totalProcessed == t->n, "mem:subscription-stats", "statistics count " << (st ? (long) st->totalProcessed : -1) << " events for " << t->n << " delivered");
    }
    if (contained) for (auto &t : taps) { // how long events waited
        auto st = prov->getSubscriber()->getSubscriptionStats(t->name);
        VH_CHECK(box.has(st.get()), "mem:stats-not-attached", "the statistics of " << t->name << " are not in the container");
        long long waited = (long long) (unsigned long long) st->totalEnqueuedTimeInNs;
        VH_CHECK(waited <= t->underway && (waited > 0 || !t->n), "mem:time-in-queue", t->n << " events waited " << waited << " ns according to the statistics, at most " << t->underway << " since they were made");
        if (startLate) VH_CHECK(waited >= t->n * (startedAt - allIn), "mem:time-in-queue", t->n << " events waited " << waited << " ns according to the statistics, at least " << startedAt - allIn << " each");
        VH_CHECK(st->openMeasures == 0, "mem:open-measure", "the time of a finished call is still running");
        vh::count("waits_measured", t->n);
    }
    VH_CHECK(pub->publicationStats.totalProcessed == total, "mem:publication-stats", "statistics count " << (long) pub->publicationStats.totalProcessed << " publications of " << total);
    long live = pub->publicationStats._totalEventAllocations;
    VH_CHECK(live >= s.poolSize, "mem:allocation-count", "allocations " << live);
    c.nontrivial = true;
    vh::count("events_delivered", (total - disc) * s.listeners);
    vh::count("events_discarded", disc);
    for (auto &t : taps) if (t->stallAt > 0 && t->n >= t->stallAt) vh::count("long_stalls_of_listeners");
    vh::count(s.conc ? "concurrent_cases" : "basic_cases");
    if (s.discard) vh::count("discarding_cases"); else vh::count("blocking_cases");
}

// Publishing calls the listeners directly.
VH_SCENARIO(emitter_delivery)
{
    auto &r = c.rng;
    int poolSize = r.chance(1, 4) ? 0 : (int) r.range(1, 6), P = (int) r.range(1, 3), L = (int) r.range(1, 3);
    long N = c.thorough ? 800 : 250;
    c.desc << "event emitter, pool " << poolSize << ", " << P << " publishers, " << L << " listeners, " << N << " events each";
    c.mark(poolSize * 100 + P * 10 + L);
    struct T2 { std::mutex m; std::vector<std::vector<long>> got; };
    EventEmitterMiddlewareProvider<Msg> prov(nullptr, "ev", poolSize, nullptr, nullptr);
    std::vector<std::unique_ptr<T2>> taps;
    for (int i = 0; i < L; ++i) {
        taps.emplace_back(new T2());
        taps.back()->got.resize(P);
        T2 *t = taps.back().get();
        prov.getSubscriber()->registerListener("l" + std::to_string(i), [t](const Msg &m) {
            VH_CHECK(m.good(), "mem:content", "event arrived damaged");
            std::lock_guard<std::mutex> l(t->m);
            t->got[m.producer].push_back(m.id);
        });
    }
    uint64_t base = r.next();
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> th;
        for (int p = 0; p < P; ++p) th.emplace_back([&, p] {
            vh::Rng q(base + p);
            for (long i = 0; i < N; ++i) {
                publishOne(prov.getPublisher(), p, i, q);
                for (auto &t : taps) {
                    std::lock_guard<std::mutex> l(t->m);
                    VH_CHECK((long) t->got[p].size() == i + 1 && t->got[p].back() == i, "mem:not-synchronous", "publish of event " << i << " returned with " << t->got[p].size() << " delivered");
                }
                vh::progress();
            }
        });
        for (auto &t : th) t.join();
    }
    c.nontrivial = true;
    vh::count("events_delivered", N * P * L);
}

// ---------------------------------------------------------------- C09
VH_SCENARIO(mem_lifecycle)
{
    auto &r = c.rng;
    Setup s = randomSetup(r, !NO_CONCURRENT);
    s.producers = 1;
    bool destroyRunning = r.chance(1, 2);
    int rounds = (int) r.range(1, 6);
    describe(c, s);
    c.desc << rounds << " start/stop rounds" << (destroyRunning ? ", destroyed while running" : "");
    c.mark(rounds * 2 + destroyRunning);
    auto tap = std::make_unique<Tap>();
    tap->name = "l";
    tap->last.assign(1, -1);
    tap->q = vh::Rng(r.next());
    tap->slow = r.chance(1, 2) ? 10 : 0;
    Tap *t = tap.get();
    auto prov = makeProvider(s, 80);
    prov->getSubscriber()->registerListener("l", [t](const Msg &m) { (*t)(m); });
    std::atomic<bool> quit{false};
    std::atomic<long> published{0};
    uint64_t seed = r.next();
    bool concurrentPublisher = s.discard && r.chance(1, 2);
    vh::Rng q(seed);
    auto *pub = prov->getPublisher();
    VH_CHECK(!prov->isRunning(), "poller:running-before-start", "reported running before start");
    {
        vh::WithNoise noise(c);
        std::thread th;
        if (concurrentPublisher) th = std::thread([&] {
            vh::Rng g(seed + 1);
            for (long i = 0; !quit.load(); ++i) { publishOne(pub, 0, i, g); published.store(i + 1); if (i % 16 == 0) usleep(g.below(150)); }
        });
        for (int k = 0; k < rounds; ++k) {
            if (r.chance(1, 4)) prov->stop(); // nothing to stop
            startProvider(*prov);
            if (r.chance(1, 3)) prov->start(); // already started
            VH_CHECK(prov->isRunning(), "poller:not-running", "started but not reported running");
            if (!concurrentPublisher) {
                int burst = (int) r.below(40);
                for (int i = 0; i < burst; ++i) { publishOne(pub, 0, published.load(), q); published.fetch_add(1); }
                if (r.chance(1, 2))
                    vh::waitUntil("published events to be delivered", [&] { return t->seen.load() + (long) pub->publicationStats.totalDiscardedEvents >= published.load(); });
            } else {
                long goal = t->seen.load() + (long) r.below(30);
                vh::waitUntil("events to flow after a restart", [&] { return t->seen.load() >= goal; });
            }
            bool last = k == rounds - 1;
            if (last && destroyRunning) break;
            prov->stop();
            if (r.chance(1, 3)) prov->stop();
            VH_CHECK(!prov->isRunning(), "poller:running-after-stop", "still reported running after stop");
            tap->dead = true;
            usleep(r.below(2) ? 0 : 400);
            tap->dead = false;
            vh::progress();
        }
        quit = true;
        if (th.joinable()) th.join();
        if (!destroyRunning) {
            // what was accepted while stopped is still delivered after the next start
            startProvider(*prov);
            vh::waitUntil("every event to be delivered or counted as discarded", [&] { return t->seen.load() + (long) pub->publicationStats.totalDiscardedEvents >= published.load(); });
            prov->stop();
            long n = t->seen.load(), d = pub->publicationStats.totalDiscardedEvents;
            VH_CHECK(n + d == published.load(), "mem:accounting", "published " << published.load() << ", delivered " << n << ", discarded " << d);
        } else vh::count("destroyed_while_running");
        prov.reset();
        t->dead = true;
        if (r.chance(1, 2)) usleep(200);
    }
    long n = t->seen.load();
    tap.reset();
    c.nontrivial = rounds > 1 || destroyRunning;
    vh::count("start_stop_rounds", rounds);
    vh::count("events_delivered", n);
}
// start and stop at the same moment as the thread comes up
VH_SCENARIO(poller_race)
{
    auto &r = c.rng;
    struct P : InMemoryQueuePoller {
        std::atomic<long> polls{0};
        bool fast;
        P(bool f, long ms) : InMemoryQueuePoller("p", 10, ms), fast(f) {}
        ~P() { stop(); }
        void takeEventFromQueue() override { polls.fetch_add(1, std::memory_order_relaxed); if (!fast) usleep(20); else std::this_thread::yield(); }
    };
    int rounds = 40, gaveUp = 0;
    long ms = r.chance(1, 2) ? 0 : 100; // 0: start gives up almost at once
    c.desc << rounds << " starts with a start timeout of " << ms << " ms";
    c.mark(ms);
    {
        vh::WithNoise noise(c);
        P p(r.chance(1, 2), ms);
        for (int i = 0; i < rounds; ++i) {
            bool up = true;
            try { p.start(); } catch (const std::runtime_error &) { up = false; ++gaveUp; }
            if (up) {
                VH_CHECK(p.isRunning(), "poller:not-running", "started but not running");
                if (r.chance(1, 2)) { long b = p.polls.load(); vh::waitUntil("the poller to poll", [&] { return p.polls.load() > b; }); }
            }
            {
                vh::HarnessWait w("stop of a poller");
                p.stop();
            }
            VH_CHECK(!p.isRunning(), "poller:running-after-stop", "still reported running after stop");
            long b = p.polls.load();
            if (r.chance(1, 8)) usleep(100);
            VH_CHECK(p.polls.load() == b, "poller:polls-after-stop", "polled after stop returned");
            vh::progress();
        }
    }
    c.mark(gaveUp);
    c.nontrivial = true;
    vh::count("poller_rounds", rounds);
    vh::count("starts_given_up", gaveUp);
}
// The middleware stopped by the listener it runs, and used again or destroyed by its owner.
VH_SCENARIO(mem_selfstop)
{
    auto &r = c.rng;
    Setup s = randomSetup(r, !NO_CONCURRENT);
    s.producers = 1;
    s.queueSize = 64;
    s.discard = false;
    int rounds = (int) r.range(1, 5);
    describe(c, s);
    c.desc << rounds << " rounds, each stopped by a listener";
    auto prov = makeProvider(s, 50);
    auto *raw = prov.get();
    auto *pub = prov->getPublisher();
    std::atomic<long> seen{0}, stopAt{-1};
    std::atomic<bool> stopped{false};
    std::atomic<int> again{0};
    bool startInside = r.chance(1, 2);
    prov->getSubscriber()->registerListener("l", [&](const Msg &m) {
        long n = seen.load();
        VH_CHECK(m.good() && m.id == n, "mem:order", "event " << m.id << " arrived as number " << n);
        VH_CHECK(!stopped.load(), "poller:delivery-after-stop", "event " << m.id << " was delivered after the listener had stopped the middleware");
        if (n == stopAt.load()) {
            raw->stop();
            stopped = true;
            VH_CHECK(!raw->isRunning(), "poller:running-after-stop", "still reported running after stop");
            if (startInside) {
                try { raw->start(); again.fetch_add(1); } catch (const std::runtime_error &) {}
            }
        }
        seen.store(n + 1);
    });
    long published = 0;
    vh::Rng q(r.next());
    {
        vh::WithNoise noise(c);
        for (int k = 0; k < rounds; ++k) {
            int burst = (int) r.range(1, 20);
            stopAt = published + (long) r.below(burst);
            stopped = false;
            bool before = r.chance(1, 2);
            auto publish = [&] { for (int i = 0; i < burst; ++i) publishOne(pub, 0, published++, q); };
            if (before) publish();
            try { raw->start(); } catch (const std::runtime_error &) { vh::count("start_timeouts"); }
            if (!before) publish();
            vh::waitUntil("the listener to stop the middleware", [&] { return seen.load() > stopAt.load(); });
            VH_CHECK(again.load() == 0, "poller:started-from-own-thread", "a middleware being stopped by its own thread was started again by it");
            int end = (int) r.below(3);
            c.mark(end * 2 + before);
            if (end == 0) { vh::HarnessWait w("stop of a middleware that a listener stopped"); raw->stop(); }
            if (end == 1) usleep(r.below(300));
            long n = seen.load();
            VH_CHECK(n == stopAt.load() + 1, "poller:delivery-after-stop", n << " events delivered, stopped at number " << stopAt.load() + 1);
            if (k + 1 == rounds && r.chance(1, 2)) break;
            // the rest is delivered after the next start
            stopAt = -1;
            stopped = false;
            { vh::HarnessWait w("start of a middleware that a listener stopped"); startProvider(*raw); }
            vh::waitUntil("the events that were left", [&] { return seen.load() == published; });
            raw->stop();
            vh::progress();
        }
        vh::HarnessWait w("destruction of a middleware that a listener stopped");
        prov.reset();
    }
    c.nontrivial = true;
    vh::count("stopped_by_listener", rounds);
}
// A listener that throws now and then: no event is kept from the others or from itself.
VH_SCENARIO(mem_throwing)
{
    auto &r = c.rng;
    Setup s = randomSetup(r, !NO_CONCURRENT);
    s.discard = false;
    describe(c, s);
    long N = 120, total = N * s.producers;
    int every = (int) r.range(1, 9);
    c.desc << N << " events each, a listener throws every " << every << " events";
    c.mark(every);
    auto prov = makeProvider(s, 60);
    Tap tap;
    tap.name = "a";
    tap.last.assign(s.producers, -1);
    std::atomic<long> calls{0};
    prov->getSubscriber()->registerListener("a", [&](const Msg &m) { tap(m); });
    prov->getSubscriber()->registerListener("thrower", [&](const Msg &) {
        if (calls.fetch_add(1) % every == 0) throw std::runtime_error("listener failure");
    });
    auto *pub = prov->getPublisher();
    uint64_t base = r.next();
    {
        vh::WithNoise noise(c);
        startProvider(*prov);
        std::vector<std::thread> th;
        for (int p = 0; p < s.producers; ++p) th.emplace_back([&, p] {
            vh::Rng q(base + p);
            for (long i = 0; i < N; ++i) { publishOne(pub, p, i, q); vh::progress(); }
        });
        { vh::HarnessWait w("publishers of events a listener fails at"); for (auto &t : th) t.join(); }
        vh::waitUntil("every event to reach both listeners", [&] { return tap.seen.load(std::memory_order_acquire) == total && calls.load() == total; });
        VH_CHECK(prov->isRunning(), "poller:ended-by-listener", "no longer running after a listener threw");
        prov->stop();
    }
    VH_CHECK(tap.n == total && calls.load() == total, "mem:accounting", "published " << total << ", delivered " << tap.n << " and " << calls.load());
    c.nontrivial = true;
    vh::count("events_delivered", total);
    vh::count("listener_failures", (total + every - 1) / every);
}
