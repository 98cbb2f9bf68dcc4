// C01: the lock-free stack, observed at its public interface.
#include "lin.hpp"
#include <array>
#include <csignal>
#include <functional>
#include <klepsydra/core/lock_free_stack.h>
#include <pthread.h>

using kpsr::LockFreeStack;
namespace {
enum { PUSH, POP };
const char *names[] = {"push", "pop"};

// A bounded stack whose slots may additionally be held by operations in flight: a push is
// refused only if the elements plus the other operations running at the same time can
// account for every slot.
struct StackModel {
    std::vector<long> v;
    size_t cap;
    bool apply(const vh::Op &op, const std::vector<vh::Op> &all, size_t self) {
        if (op.kind == PUSH) {
            if (op.ok) {
                if (v.size() >= cap) return false;
                v.push_back(op.arg);
                return true;
            }
            size_t inflight = 0;
            for (size_t j = 0; j < all.size(); ++j)
                if (j != self && all[j].call <= op.ret && all[j].ret >= op.call) ++inflight;
            return v.size() + inflight >= cap;
        }
        if (!op.ok) return v.empty();
        if (v.empty() || v.back() != op.res) return false;
        v.pop_back();
        return true;
    }
    void key(std::string &k) const { k.append((const char *) v.data(), v.size() * sizeof(long)); }
};

// payload touched with plain accesses only: an ordering mistake is a data race on it
struct Payload {
    long id = -1;
    std::array<long, 6> body{};
    void set(long i) {
        id = i;
        for (size_t k = 0; k < body.size(); ++k) body[k] = i * 7 + (long) k;
    }
    bool intact() const {
        for (size_t k = 0; k < body.size(); ++k)
            if (body[k] != id * 7 + (long) k) return false;
        return true;
    }
};
} // namespace

VH_SCENARIO(stack_lin)
{
    auto &r = c.rng;
    size_t cap = r.range(1, 4);
    int T = (int) r.range(2, 4), N = (int) r.range(2, 5);
    int prefill = (int) r.below(cap + 1);
    c.desc << "capacity " << cap << " prefill " << prefill << " threads " << T << " ops/thread " << N << " script ";
    LockFreeStack<long> st(cap, nullptr);
    long x;
    for (size_t i = 0; i < cap; ++i) st.pop(x);
    StackModel m{{}, cap};
    for (int i = 0; i < prefill; ++i) {
        VH_CHECK(st.push(900 + i), "stack:refused-below-capacity", "sequential push refused with " << i << " of " << cap);
        m.v.push_back(900 + i);
    }
    std::vector<std::vector<vh::Op>> h(T);
    for (int t = 0; t < T; ++t) {
        for (int i = 0; i < N; ++i) {
            vh::Op o;
            o.thread = t;
            o.kind = r.chance(1, 2) ? PUSH : POP;
            o.arg = (t + 1) * 100 + i;
            c.mark(o.kind);
            c.desc << (o.kind == PUSH ? '+' : '-');
            h[t].push_back(o);
        }
        c.desc << ' ';
    }
    c.mark(cap * 100 + prefill);
    vh::SpinStart go;
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                go.arrive();
                for (auto &o : h[t]) {
                    o.call = vh::now();
                    if (o.kind == PUSH) o.ok = st.push(o.arg);
                    else { long v = -1; o.ok = st.pop(v); o.res = v; }
                    o.ret = vh::now();
                }
            });
        go.release(T);
        for (auto &t : th) t.join();
    }
    std::vector<vh::Op> all;
    for (auto &v : h) all.insert(all.end(), v.begin(), v.end());
    // the final content, read back sequentially, closes the history
    int64_t t = vh::now();
    for (size_t i = 0; i <= cap; ++i) {
        vh::Op o;
        o.kind = POP; o.thread = 99; o.call = ++t; o.res = -1;
        long v;
        o.ok = st.pop(v);
        if (o.ok) o.res = v;
        o.ret = ++t;
        all.push_back(o);
        if (!o.ok) break;
    }
    size_t overlaps = 0;
    for (auto &a : all) for (auto &b : all) if (a.thread < b.thread && a.call <= b.ret && b.call <= a.ret) ++overlaps;
    int v = vh::linearizable(all, m);
    vh::count("histories");
    vh::count("history_operations", all.size());
    vh::count("overlapping_pairs", overlaps);
    if (v < 0) vh::count("histories_given_up");
    VH_CHECK(v != 0, "stack:not-linearizable", "history has no sequential explanation\n" << vh::showHistory(all, names));
    c.nontrivial = overlaps > 0;
    // capacity must be fully usable again
    for (size_t i = 0; i < cap; ++i) VH_CHECK(st.push((long) i), "stack:capacity-lost", "slot " << i << " of " << cap << " is gone after the history");
    VH_CHECK(!st.push(-5), "stack:over-capacity", "accepted more than " << cap << " elements");
    for (size_t i = cap; i-- > 0;) {
        long y = -1;
        VH_CHECK(st.pop(y) && y == (long) i, "stack:order-after-history", "expected " << i << " got " << y);
    }
}

// Threads circulate payloads; every payload is owned by exactly one party at any time.
VH_SCENARIO(stack_circulate)
{
    auto &r = c.rng;
    size_t cap = r.chance(1, 3) ? 1 + r.below(3) : 1 + r.below(24);
    int T = (int) r.range(2, 6);
    int N = (int) (c.thorough ? 6000 : 1500);
    std::vector<int> hold(T);
    for (auto &x : hold) x = (int) r.range(1, 3);
    c.desc << "capacity " << cap << " threads " << T << " ops " << N;
    c.mark(cap * 16 + T);
    LockFreeStack<Payload *> st(cap, nullptr);
    Payload *dummy;
    for (size_t i = 0; i < cap; ++i) st.pop(dummy);
    std::vector<Payload> objs(cap);
    std::vector<std::atomic<int>> owner(cap);
    for (size_t i = 0; i < cap; ++i) {
        objs[i].set(0);
        objs[i].id = (long) i * 1000000;
        objs[i].set((long) i * 1000000);
        owner[i].store(-1, std::memory_order_relaxed);
        st.push(&objs[i]);
    }
    struct Res { long pops = 0, empties = 0; };
    std::vector<Res> res(T);
    vh::SpinStart go;
    uint64_t base = r.next();
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                vh::Rng q(base + t);
                std::vector<Payload *> mine;
                go.arrive();
                for (int i = 0; i < N; ++i) {
                    if ((int) mine.size() < hold[t] && q.chance(2, 3)) {
                        Payload *p = nullptr;
                        if (st.pop(p)) {
                            size_t k = p - objs.data();
                            VH_CHECK(p >= objs.data() && k < cap, "stack:invented", "popped something never pushed");
                            int o = owner[k].exchange(t, std::memory_order_relaxed);
                            VH_CHECK(o == -1, "stack:duplicate", "element " << k << " popped by " << t << " while owned by " << o);
                            VH_CHECK(p->intact(), "stack:torn", "element " << k << " content torn: id " << p->id);
                            p->set((long) k * 1000000 + i);
                            mine.push_back(p);
                            res[t].pops++;
                        } else
                            res[t].empties++;
                    } else if (!mine.empty()) {
                        Payload *p = mine.back();
                        mine.pop_back();
                        owner[p - objs.data()].store(-1, std::memory_order_relaxed);
                        // an element whose removal is complete has left a slot free for its return
                        VH_CHECK(st.push(p), "stack:refused-return", "an element that was taken out (capacity " << cap << ") is refused on its return");
                        vh::progress();
                    }
                }
                for (auto p : mine) {
                    owner[p - objs.data()].store(-1, std::memory_order_relaxed);
                    VH_CHECK(st.push(p), "stack:refused-return", "an element that was taken out is refused on its return");
                }
            });
        go.release(T);
        for (auto &t : th) t.join();
    }
    long pops = 0, empties = 0;
    for (auto &x : res) { pops += x.pops; empties += x.empties; }
    std::set<Payload *> got;
    Payload *p;
    while (st.pop(p)) {
        VH_CHECK(got.insert(p).second, "stack:duplicate-at-rest", "the same element comes out twice at the end");
        VH_CHECK(p->intact(), "stack:torn-at-rest", "content torn at rest");
        VH_CHECK(got.size() <= cap, "stack:over-capacity", "more than capacity elements at rest");
    }
    VH_CHECK(got.size() == cap, "stack:lost", "only " << got.size() << " of " << cap << " elements left at rest");
    vh::count("circulate_pops", pops);
    vh::count("circulate_empty_answers", empties);
    c.nontrivial = pops > 100;
    c.mark(pops % 64);
}

// One thread is suspended at an arbitrary instruction of a pop/push (as a preempted thread is)
// while the others perform an exact, large number of operations; then it resumes.
namespace {
std::atomic<int> gSuspended{0};
std::atomic<bool> gResume{false};
void onSuspend(int) {
    gSuspended.store(1);
    while (!gResume.load()) { timespec ts{0, 20000}; nanosleep(&ts, nullptr); }
    gSuspended.store(2);
}
} // namespace
VH_SCENARIO(stack_suspend)
{
    auto &r = c.rng;
    size_t cap = r.range(2, 4);
    int trials = c.thorough ? 60 : 20;
    c.desc << "capacity " << cap << ", suspended thread, 65536-operation windows x" << trials;
    struct sigaction sa {};
    sa.sa_handler = onSuspend;
    sigaction(SIGUSR1, &sa, nullptr);
    long suspended = 0;
    LockFreeStack<long> st(cap, nullptr);
    long x;
    for (size_t i = 0; i < cap; ++i) st.pop(x);
    for (size_t i = 0; i < cap; ++i) st.push((long) i);
    std::vector<std::atomic<int>> owner(cap);
    for (auto &o : owner) o.store(0);
    std::atomic<bool> stop{false};
    auto take = [&](long &v) {
        if (!st.pop(v)) return false;
        VH_CHECK(v >= 0 && v < (long) cap, "stack:invented", "popped " << v);
        VH_CHECK(owner[v].exchange(1) == 0, "stack:duplicate-after-suspension", "element " << v << " is handed out twice (capacity " << cap << ")");
        return true;
    };
    auto give = [&](long v) {
        owner[v].store(0);
        int n = 0;
        while (!st.push(v)) { if (++n > 2000000) vh::violation("stack:slot-lost-after-suspension", "no slot is left for an element that was taken out"); if (n % 1000 == 0) usleep(50); }
    };
    // victim: pops and pushes; counts its completed operations
    std::thread victim([&] {
        long v;
        while (!stop.load(std::memory_order_relaxed)) {
            if (take(v)) give(v);
        }
    });
    for (int k = 0; k < trials; ++k) {
        vh::progress();
        usleep(50 + r.below(200));
        gSuspended.store(0);
        gResume.store(false);
        pthread_kill(victim.native_handle(), SIGUSR1);
        while (gSuspended.load() != 1) sched_yield();
        ++suspended;
        // two threads shuffle the order of the slots, counting the operations that took effect
        std::atomic<long> cnt{0};
        std::vector<std::thread> sh;
        for (int t = 0; t < 2; ++t)
            sh.emplace_back([&] {
                long v, w, n = 0;
                for (int i = 0; i < 300; ++i) {
                    if (take(v)) {
                        ++n;
                        bool second = take(w);
                        if (second) ++n;
                        owner[v].store(0);
                        if (st.push(v)) ++n; else give(v), ++n;
                        if (second) { give(w); ++n; }
                    }
                }
                cnt.fetch_add(n);
            });
        for (auto &t : sh) t.join();
        // complete to an exact multiple of 2^16 successful operations
        long need = (65536 - cnt.load() % 65536) / 2;
        long v;
        for (long i = 0; i < need; ++i) {
            if (!take(v)) break;
            give(v);
        }
        // keep elements out while the victim resumes: whatever it takes must not be one of these
        std::vector<long> kept;
        gResume.store(true);
        while (gSuspended.load() != 2) sched_yield();
        for (int i = 0; i < 200; ++i) {
            if (kept.size() < cap - 1 && take(v)) kept.push_back(v);
            else if (!kept.empty()) { give(kept.back()); kept.pop_back(); }
        }
        for (long q : kept) give(q);
    }
    stop.store(true);
    gResume.store(true);
    victim.join();
    std::set<long> rest;
    while (st.pop(x)) VH_CHECK(rest.insert(x).second, "stack:duplicate-after-suspension", "duplicate " << x << " at rest");
    VH_CHECK(rest.size() == cap, "stack:lost-after-suspension", rest.size() << " of " << cap << " left");
    vh::count("suspensions", suspended);
    c.mark(c.seed);
    c.nontrivial = suspended > 0;
}

// Sequential agreement with a vector, any capacity.
VH_SCENARIO(stack_model)
{
    auto &r = c.rng;
    size_t cap;
    switch (r.below(6)) {
    case 0: cap = 1; break;
    case 1: cap = 65530 + r.below(12); break;
    case 2: cap = 66000 + r.below(8000); break;
    default: cap = 1 + r.below(300);
    }
    bool init = r.chance(1, 2);
    long n = 0;
    std::function<void(long &)> fn;
    if (init) fn = [&](long &v) { v = n++; };
    LockFreeStack<long> st(cap, fn);
    if (init) VH_CHECK(n == (long) cap, "stack:initializer-count", "initializer ran " << n << " times for capacity " << cap);
    c.desc << "capacity " << cap << " init " << init;
    std::set<long> seen;
    for (size_t i = 0; i < cap; ++i) {
        long v = -7;
        VH_CHECK(st.pop(v), "stack:starts-short", "only " << i << " of " << cap << " elements initially");
        if (init) VH_CHECK(seen.insert(v).second && v >= 0 && v < (long) cap, "stack:initial-content", "initial element " << v);
    }
    long v;
    VH_CHECK(!st.pop(v), "stack:starts-long", "more than capacity elements initially");
    std::vector<long> model;
    long id = 0;
    size_t steps = cap > 1000 ? 3 * cap : 2000, fulls = 0, empties = 0;
    int bias = 50;
    for (size_t i = 0; i < steps; ++i) {
        if (i % (cap > 1000 ? cap : 100) == 0) bias = r.chance(1, 2) ? 85 : 15;
        if ((int) r.below(100) < bias) {
            bool ok = st.push(++id);
            VH_CHECK(ok == (model.size() < cap), "stack:capacity", "push answered " << ok << " with " << model.size() << " of " << cap);
            if (ok) model.push_back(id); else ++fulls;
        } else {
            long x = -1;
            bool ok = st.pop(x);
            VH_CHECK(ok == !model.empty(), "stack:emptiness", "pop answered " << ok << " with " << model.size());
            if (ok) { VH_CHECK(x == model.back(), "stack:lifo", "popped " << x << " expected " << model.back()); model.pop_back(); }
            else ++empties;
        }
    }
    vh::count("model_steps", steps);
    vh::count("model_full_answers", fulls);
    vh::count("model_empty_answers", empties);
    c.mark(cap); c.mark(id);
    c.nontrivial = fulls + empties > 0 || cap > 1000;
}
