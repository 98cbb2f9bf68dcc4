// C10: the basic scheduler.  C19: tasks scheduled on the event loop.
#include "vh.hpp"
#include "moncontainer.hpp"
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
#include <klepsydra/mem_core/basic_scheduler.h>
#include <spdlog/spdlog.h>
#include <sys/syscall.h>
#include <time.h>
using namespace kpsr;
using namespace kpsr::high_performance;

// The system clock as the scheduler sees it: set forwards and backwards while tasks are pending.
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define STEPPED_CLOCK 0
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define STEPPED_CLOCK 0
#endif
#endif
#ifndef STEPPED_CLOCK
#define STEPPED_CLOCK 1
#endif
namespace {
std::atomic<int64_t> clockOffset{0};             // seconds
std::atomic<long> clockReads{0};
}
#if STEPPED_CLOCK
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    int rc = (int) ::syscall(SYS_clock_gettime, id, ts);
    if (rc == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec += clockOffset.load(std::memory_order_relaxed);
        clockReads.fetch_add(1, std::memory_order_relaxed);
    }
    return rc;
}
#endif

namespace {
struct Task {
    std::string name;
    int after = 0;
    bool repeat = false;
    int body = 0;                            // µs the task takes
    int selfStopAt = 0;                      // stops itself at this run
    int slowEvery = 1;                       // the body is taken by every so many runs
    int64_t due = 0;                         // of the runs so far, the latest (end - number * period): a late run makes the later ones later
    bool spawns = false;
    int again = 0;
    std::atomic<int64_t> asked{0};           // when the scheduling call was made
    std::atomic<bool> ended{false};          // stop() has returned, or the scheduler is gone
    std::atomic<bool> selfStopped{false};
    std::atomic<int> running{0};
    std::atomic<long> runs{0};
    std::vector<int64_t> starts;             // written by the running thread only
    std::thread::id tid;
};
typedef std::shared_ptr<Task> TaskP;

struct Bench {
    vh::Case &c;
    vh::Rng &r;
    Scheduler *sched = nullptr;
    bool loop;                               // tasks are to run on the event loop
    std::thread::id loopId, mainId = std::this_thread::get_id();
    std::atomic<int> inLoop{0};
    std::atomic<long> loopRuns{0};
    std::mutex m;
    std::vector<TaskP> tasks, kids;
    std::atomic<long> kidsAsked{0}, kidsRun{0};
    std::function<bool()> dropped = [] { return false; };   // the loop's ring was full: executions may be missing
    Bench(vh::Case &c_, bool loop_) : c(c_), r(c_.rng), loop(loop_) {}

    void body(Task *t) {
        int64_t s = vh::now();
        VH_CHECK(!t->ended.load(), "sched:ran-after-stop", "task '" << t->name << "' ran after it had been stopped");
        VH_CHECK(t->running.fetch_add(1) == 0, "sched:overlap", "two runs of task '" << t->name << "' overlapped");
        if (loop) {
            VH_CHECK(std::this_thread::get_id() == loopId, "sched:thread", "task '" << t->name << "' did not run on the event loop");
            VH_CHECK(inLoop.fetch_add(1) == 0, "sched:loop-overlap", "a task overlapped with another task or listener");
            loopRuns.fetch_add(1);
        } else {
            VH_CHECK(std::this_thread::get_id() != mainId, "sched:thread", "task '" << t->name << "' ran on the caller's thread");
        }
        VH_CHECK(s - t->asked.load() >= (int64_t) t->after * 1000, "sched:early",
                 "task '" << t->name << "' ran " << (s - t->asked.load()) / 1000 << " us after it was scheduled, asked for " << t->after);
        if (!loop && t->repeat) {               // the period is a lower bound from one run to the next, hence for all of them together
            int64_t n = (int64_t) t->starts.size() + 1;
            VH_CHECK(s - t->asked.load() >= n * ((int64_t) t->after * 1000 - 2000), "sched:too-often",
                     "task '" << t->name << "' had run " << n << " times " << (s - t->asked.load()) / 1000 << " us after it was scheduled, period " << t->after);
            VH_CHECK(n == 1 || s >= t->due + (n - 1) * ((int64_t) t->after * 1000 - 2000), "sched:rushed",
                     "run " << n << " of task '" << t->name << "' came " << (t->due + (n - 1) * ((int64_t) t->after * 1000 - 2000) - s) / 1000 << " us too early after an earlier run that was late, period " << t->after);
        }
        t->starts.push_back(s);
        long k = t->runs.fetch_add(1) + 1;
        VH_CHECK(t->repeat || k == 1, "sched:once-twice", "one-off task '" << t->name << "' ran " << k << " times");
        VH_CHECK(!t->selfStopped.load() || loop, "sched:ran-after-self-stop", "task '" << t->name << "' ran again after stopping itself");
        if (t->body && k % t->slowEvery == 0) usleep((useconds_t) t->body);
        if (t->spawns && k == 1) {
            // a name of its own: a kid that is replaced before its thread is up does not run
            TaskP kid = make(t->name + ".kid" + std::to_string(kidsAsked.fetch_add(1)), (int) 300, false);
            { std::lock_guard<std::mutex> g(m); kids.push_back(kid); }
            kid->asked = vh::now();
            sched->startScheduledTask(kid->name, kid->after, false, [this, kid] { body(kid.get()); kidsRun.fetch_add(1); });
        }
        if (t->again && k == 1) {            // the task schedules itself anew, under its own name
            TaskP next = make(t->name, t->again, false);
            kidsAsked.fetch_add(1);
            { std::lock_guard<std::mutex> g(m); kids.push_back(next); }
            next->asked = vh::now();
            sched->startScheduledTask(next->name, next->after, false, [this, next] { body(next.get()); kidsRun.fetch_add(1); });
        }
        if (t->selfStopAt && k == t->selfStopAt) {
            sched->stopScheduledTask(t->name);
            t->selfStopped = true;
        }
        VH_CHECK(!t->ended.load(), "sched:stop-did-not-wait", "stop returned while task '" << t->name << "' was running");
        vh::progress();
        if (t->repeat) {
            int64_t n = (int64_t) t->starts.size(), d = vh::now() - n * ((int64_t) t->after * 1000 - 2000);
            t->due = n == 1 ? d : std::max(t->due, d);
        }
        if (loop) inLoop.fetch_sub(1);
        t->running.fetch_sub(1);
    }
    TaskP make(const std::string &name, int after, bool repeat) {
        auto t = std::make_shared<Task>();
        t->name = name; t->after = after; t->repeat = repeat;
        return t;
    }
    void launch(TaskP t) {
        t->asked = vh::now();
        sched->startScheduledTask(t->name, t->after, t->repeat, [this, t] { body(t.get()); });
    }
};
struct CountingService : Service {
    std::atomic<long> runs{0};
    std::atomic<int> in{0};
    Bench &b;
    int64_t asked = 0, period = 0;
    CountingService(Bench &b_, const std::string &n) : Service(nullptr, nullptr, n), b(b_) {}
    void start() override {}
    void stop() override {}
    void execute() override {
        int64_t s = vh::now();
        VH_CHECK(in.fetch_add(1) == 0, "sched:service-overlap", "two runs of a service overlapped");
        if (b.loop) {
            VH_CHECK(std::this_thread::get_id() == b.loopId, "sched:service-thread", "a service did not run on the event loop");
            VH_CHECK(b.inLoop.fetch_add(1) == 0, "sched:loop-overlap", "a service overlapped with a task or listener");
        } else
            VH_CHECK(std::this_thread::get_id() != b.mainId, "sched:service-thread", "a service ran on the caller's thread");
        long n = runs.fetch_add(1) + 1;
        VH_CHECK(s - asked >= (n == 1 ? period : b.loop ? 0 : n * (period - 2000)) * 1000, "sched:service-too-often",
                 "a service had run " << n << " times " << (s - asked) / 1000 << " us after it was scheduled, period " << period);
        vh::progress();
        if (b.loop) b.inLoop.fetch_sub(1);
        in.fetch_sub(1);
    }
};

// flush: returns when everything queued on the loop before has been executed
template<class Flush, class Settle>
void script(Bench &b, Flush flush, Settle destroyScheduler) {
    vh::Rng &r = b.r;
    std::vector<TaskP> live;                   // tasks this script has started and not stopped
    std::map<std::string, TaskP> byName;
    const int nameStyle = (int) r.below(4);
    int serial = 0, ops = (int) r.range(4, 14);
    long replaced = 0, stoppedPending = 0, selfStops = 0, spawned = 0;
    auto awaitRuns = [&](TaskP t, long k) { vh::waitUntil("a scheduled task to run", [&] { return b.dropped() || (t->runs.load() >= k && (t->running.load() == 0 || t->repeat)); }); };
    // `ended` may only be raised once nothing that was queued can still run
    auto end = [&](TaskP t) { flush(); t->ended = true; };
    for (int k = 0; k < ops; ++k) {
        switch (r.below(7)) {
        case 0: case 1: {                      // one-off
            std::string name = r.chance(1, 3) && !byName.empty() ? byName.begin()->first : vh::nameOf(nameStyle, "t", serial++);
            auto old = byName.find(name);
            TaskP t = b.make(name, r.chance(1, 8) ? 0 : (int) r.below(2500), false);
            t->body = r.chance(1, 3) ? (int) r.below(400) : 0;
            t->spawns = r.chance(1, 4);
            if (old == byName.end() && r.chance(1, 5)) t->again = (int) r.range(1, 900);
            spawned += t->spawns + (t->again > 0);
            b.c.desc << " once(" << name << "," << t->after << ")";
            TaskP o;
            if (old != byName.end()) { o = old->second; ++replaced; }
            b.tasks.push_back(t);
            b.launch(t);
            byName[name] = t;
            if (o) end(o);
            if (t->again) {
                awaitRuns(t, 1);
                vh::waitUntil("a task that scheduled itself to run", [&] { return b.dropped() || b.kidsRun.load() == b.kidsAsked.load(); });
                byName.erase(name);
            } else if (r.chance(1, 2)) awaitRuns(t, 1);
            break;
        }
        case 2: case 3: {                      // repeated
            std::string name = r.chance(1, 4) && !byName.empty() ? byName.rbegin()->first : vh::nameOf(nameStyle, "t", serial++);
            auto old = byName.find(name);
            TaskP t = b.make(name, (int) r.range(20, 1500), true);
            t->body = r.chance(1, 3) ? (int) r.below(1200) : 0;
            if (t->body && r.chance(1, 2)) t->slowEvery = (int) r.range(2, 4), t->body *= 1 + (int) r.below(4);
            if (b.loop) { t->after += 100; t->body = t->body * t->after / 1600 / 3; }
            if (!b.loop && r.chance(1, 5)) t->selfStopAt = (int) r.range(1, 4), ++selfStops;
            if (b.loop && r.chance(1, 4)) t->selfStopAt = (int) r.range(1, 4), ++selfStops;
            b.c.desc << " repeat(" << name << "," << t->after << "," << t->body << "," << t->selfStopAt << ")";
            TaskP o;
            if (old != byName.end()) { o = old->second; ++replaced; }
            b.tasks.push_back(t);
            b.launch(t);
            byName[name] = t;
            if (o) end(o);
            if (t->selfStopAt) {
                vh::waitUntil("a task to stop itself", [&] { return t->selfStopped.load() && t->running.load() == 0; });
                end(t);
                if (!b.loop) VH_CHECK(t->runs.load() == t->selfStopAt, "sched:self-stop-count", "task stopped itself in run " << t->selfStopAt << " and ran " << t->runs.load() << " times");
                byName.erase(name);
            } else if (r.chance(2, 3)) awaitRuns(t, r.range(1, 5));
            break;
        }
        case 4: case 5: {                      // stop
            if (byName.empty() || r.chance(1, 6)) { b.c.desc << " stop-unknown"; b.sched->stopScheduledTask("nobody"); break; }
            auto it = byName.begin();
            std::advance(it, r.below(byName.size()));
            TaskP t = it->second;
            if (t->runs.load() == 0) ++stoppedPending;
            b.c.desc << " stop(" << t->name << ")";
            b.sched->stopScheduledTask(t->name);
            end(t);
            byName.erase(it);
            break;
        }
        default: {                             // a service
            CountingService s(b, "service" + std::to_string(serial++));
            bool started = r.chance(3, 4), repeat = r.chance(2, 3);
            if (started) s.startup();
            b.c.desc << " service";
            int period = (int) r.below(r.chance(1, 3) ? 6000 : 700);
            int64_t t0 = vh::now();
            s.asked = t0;
            s.period = period;
            b.sched->startScheduledService(period, repeat, &s);
            if (started) {
                long want = repeat ? r.range(1, 4) : 1;
                vh::waitUntil("a scheduled service to run", [&] { return b.dropped() || s.runs.load() >= want; });
                VH_CHECK(b.dropped() || vh::now() - t0 >= (int64_t) period * 1000, "sched:early", "service ran before its delay");
            }
            b.sched->stopScheduledService(&s);
            flush();
            long n = s.runs.load();
            usleep((useconds_t) r.below(300));
            VH_CHECK(s.runs.load() == n && s.in.load() == 0, "sched:service-after-stop", "a service ran after it had been stopped");
            VH_CHECK(started || n == 0, "sched:service-not-started", "a service that was not started was executed");
            VH_CHECK(repeat || n <= 1, "sched:once-twice", "a service scheduled once ran " << n << " times");
        }
        }
    }
    // every one-off that was left alone runs in the end
    for (auto &p : byName)
        if (!p.second->repeat) awaitRuns(p.second, 1);
    vh::waitUntil("tasks started by tasks to run", [&] { return b.dropped() || b.kidsRun.load() == b.kidsAsked.load(); });
    long still = (long) byName.size(), repeating = 0;
    for (auto &p : byName) repeating += p.second->repeat;
    destroyScheduler();
    for (auto &t : b.tasks) { t->ended = true; VH_CHECK(t->running.load() == 0, "sched:running-after-destruction", "a task runs although the scheduler is gone"); }
    for (auto &t : b.kids) t->ended = true;
    usleep((useconds_t) r.below(1000));
    long runs = 0;
    for (auto &t : b.tasks) runs += t->runs.load();
    vh::count("task_runs", runs);
    vh::count("tasks_replaced", replaced);
    vh::count("stopped_while_pending", stoppedPending);
    vh::count("self_stops", selfStops);
    vh::count("tasks_started_by_tasks", spawned);
    vh::count("destroyed_with_repeating_tasks", repeating > 0);
    vh::count("destroyed_with_finished_tasks", still > repeating);
    b.c.mark(vh::hashStr(b.c.desc.str()));
    b.c.nontrivial = runs > 0;
}
} // namespace

VH_SCENARIO(sched_basic) {
    Bench b(c, false);
    vh::WithNoise noise(c);
    std::unique_ptr<mem::BasicScheduler> s(new mem::BasicScheduler);
    b.sched = s.get();
    script(b, [] {}, [&] { s.reset(); });
}

// Several threads start and stop their own tasks on one scheduler.
VH_SCENARIO(sched_threads) {
    Bench b(c, false);
    int threads = (int) c.rng.range(2, 4), each = (int) c.rng.range(3, 10);
    c.desc << threads << " threads x" << each;
    c.mark(threads); c.mark(each);
    vh::WithNoise noise(c);
    mem::BasicScheduler s;
    b.sched = &s;
    std::vector<uint64_t> seeds;
    for (int i = 0; i < threads; ++i) { seeds.push_back(c.rng.next()); c.mark(seeds.back()); }
    vh::SpinStart go;
    std::atomic<long> runs{0};
    std::vector<std::thread> ts;
    for (int i = 0; i < threads; ++i)
        ts.emplace_back([&, i] {
            vh::Rng q(seeds[i]);
            go.arrive();
            for (int k = 0; k < each; ++k) {
                TaskP t = b.make("t" + std::to_string(i) + (q.chance(1, 2) ? "." + std::to_string(k) : std::string()), (int) q.below(200), q.chance(1, 2));
                b.launch(t);
                if (q.chance(1, 2)) {
                    usleep((useconds_t) q.below(600));
                } else {
                    for (int j = 0; j < 20000 && !t->runs.load(); ++j) usleep(50);
                }
                s.stopScheduledTask(t->name);
                t->ended = true;
                runs += t->runs.load();
                VH_CHECK(t->running.load() == 0, "sched:stop-did-not-wait", "stop returned while the task was running");
                vh::progress();
            }
        });
    go.release(threads);
    for (auto &t : ts) t.join();
    vh::count("threaded_runs", runs.load());
    c.nontrivial = runs.load() > 0;
}

// Several threads schedule and stop under the same names: whatever came of it, one stop per name ends everything.
VH_SCENARIO(sched_clash) {
    Bench b(c, false);
    int threads = (int) c.rng.range(2, 4), each = (int) c.rng.range(3, 12), names = (int) c.rng.range(1, 2);
    bool stops = c.rng.chance(1, 2), destroy = c.rng.chance(1, 3);
    c.desc << threads << " threads x" << each << " on " << names << " names" << (stops ? ", stopping too" : "") << (destroy ? ", ended by destruction" : "");
    c.mark(threads); c.mark(each); c.mark(names); c.mark(stops * 2 + destroy);
    vh::WithNoise noise(c);
    std::unique_ptr<mem::BasicScheduler> s(new mem::BasicScheduler);
    b.sched = s.get();
    std::vector<uint64_t> seeds;
    for (int i = 0; i < threads; ++i) { seeds.push_back(c.rng.next()); c.mark(seeds.back()); }
    vh::SpinStart go;
    std::vector<std::thread> ts;
    for (int i = 0; i < threads; ++i)
        ts.emplace_back([&, i] {
            vh::Rng q(seeds[i]);
            go.arrive();
            for (int k = 0; k < each; ++k) {
                std::string name = "t" + std::to_string(q.below(names));
                if (stops && q.chance(1, 4)) { s->stopScheduledTask(name); continue; }
                TaskP t = b.make(name, (int) q.range(50, 300), q.chance(4, 5));
                { std::lock_guard<std::mutex> g(b.m); b.tasks.push_back(t); }
                b.launch(t);
                if (q.chance(1, 3)) usleep((useconds_t) q.below(600));
                vh::progress();
            }
        });
    go.release(threads);
    { vh::HarnessWait w("threads scheduling under the same names"); for (auto &t : ts) t.join(); }
    if (destroy) s.reset();
    else for (int i = 0; i < names; ++i) s->stopScheduledTask("t" + std::to_string(i));
    for (auto &t : b.tasks) {
        t->ended = true;
        VH_CHECK(t->running.load() == 0, "sched:stop-did-not-wait", "a task was running after its name had been stopped");
    }
    usleep((useconds_t) c.rng.range(400, 1500));
    long runs = 0;
    for (auto &t : b.tasks) runs += t->runs.load();
    vh::count("clashing_tasks", (long) b.tasks.size());
    c.nontrivial = runs > 0;
}

// The time a task takes is part of its period: judged against a control thread that sleeps alike.
VH_SCENARIO(sched_pace) {
    int period = (int) c.rng.range(4000, 8000), body = period * (int) c.rng.range(60, 85) / 100;
    c.desc << "period " << period << " body " << body;
    c.mark(period); c.mark(body);
    mem::BasicScheduler s;
    std::atomic<int64_t> last{0}, best{INT64_MAX};
    std::atomic<long> runs{0};
    s.startScheduledTask("pace", period, true, [&] {
        int64_t t = vh::now();
        if (last.load()) best = std::min<int64_t>(best.load(), t - last.load());
        last = t;
        usleep((useconds_t) body);
        runs.fetch_add(1);
        vh::progress();
    });
    int64_t limit = ((int64_t) period + body / 2) * 1000;
    int64_t control = INT64_MAX;
    for (int k = 0; k < 400 && !(best.load() < limit); ++k) {
        int64_t t = vh::now();
        usleep((useconds_t) body);
        usleep((useconds_t) (period - body));
        control = std::min(control, vh::now() - t);
        if (k >= 60 && control < limit && runs.load() >= 40) break;
    }
    s.stopScheduledTask("pace");
    VH_CHECK(best.load() < limit || control >= limit || runs.load() < 40, "sched:pace",
             "in " << runs.load() << " runs the shortest interval was " << best.load() / 1000 << " us for a period of " << period << " us and a task of " << body << " us");
    vh::count("paced_runs", runs.load());
    c.nontrivial = runs.load() > 1;
}

// The system clock is set while a repeated task runs: the task neither stalls nor is rushed.
VH_SCENARIO(sched_clock) {
    int period = (int) c.rng.range(200, 3000), body = c.rng.chance(1, 2) ? 0 : (int) c.rng.below(period);
    c.desc << "period " << period << " body " << body << ", clock steps";
    c.mark(period); c.mark(body);
    // the interposed clock is the one the library would read
    clockOffset = 0;
    auto wall = [] { return std::chrono::duration_cast<std::chrono::seconds>(std::chrono::system_clock::now().time_since_epoch()).count(); };
    long before = wall();
    clockOffset = 100000;
    bool effective = wall() - before >= 99000;
    clockOffset = 0;
    VH_CHECK(effective || !STEPPED_CLOCK, "sched:harness-clock", "the clock of the harness is not in use");
    std::atomic<long> runs{0};
    long steps = 0;
    {
        mem::BasicScheduler s;
        int64_t asked = vh::now();
        vh::Rng inside(c.rng.next());
        bool stepInside = c.rng.chance(1, 2);
        static const int64_t sizes[] = {1, 60, 3600, 86400, 400000000};
        auto step = [](vh::Rng &q) { clockOffset = sizes[q.below(5)] * (q.chance(1, 2) ? 1 : -1); };
        s.startScheduledTask("clocked", period, true, [&] {
            int64_t t = vh::now();
            long n = runs.load() + 1;
            VH_CHECK(t - asked >= n * ((int64_t) period * 1000 - 2000), "sched:too-often",
                     "the task had run " << n << " times " << (t - asked) / 1000 << " us after it was scheduled, period " << period << ", the system clock was set meanwhile");
            if (body) usleep((useconds_t) body);
            if (stepInside) step(inside);
            runs.fetch_add(1);
            vh::progress();
        });
        for (int k = (int) c.rng.range(3, 8); k > 0; --k) {
            if (!stepInside) step(c.rng);
            ++steps;
            c.desc << " " << clockOffset.load();
            long n = runs.load();
            vh::waitUntil("a repeated task to run on after the system clock was set", [&] { return runs.load() >= n + 2; });
        }
        // and a task that runs once comes in time
        std::atomic<bool> once{false};
        s.startScheduledTask("once", period, false, [&] { once = true; });
        step(c.rng);
        vh::waitUntil("a task to run after the system clock was set", [&] { return once.load(); });
        s.stopScheduledTask("clocked");
    }
    clockOffset = 0;
    vh::count("clock_steps", steps);
    vh::count("runs_across_clock_steps", runs.load());
    c.nontrivial = effective;
}

namespace {
template<size_t N> void loopCase(vh::Case &c) {
    Bench b(c, true);
    MonContainer box;
    Container *cont = c.rng.chance(1, 2) ? &box : nullptr;
    std::string name = c.rng.chance(1, 2) ? "" : "mine";
    bool traffic = c.rng.chance(2, 3);
    c.desc << "ring " << N << (cont ? " container" : "") << (traffic ? " traffic" : "");
    vh::WithNoise noise(c);
    {
        std::unique_ptr<EventLoopMiddlewareProvider<N>> prov(new EventLoopMiddlewareProvider<N>(cont, "el"));
        std::atomic<long> seen{0};
        std::atomic<bool> known{false};
        Subscriber<long> *sub = prov->template getSubscriber<long>("mark");
        sub->registerListener("mark", [&](const long &x) {
            if (!known.load()) { b.loopId = std::this_thread::get_id(); known = true; }
            VH_CHECK(std::this_thread::get_id() == b.loopId, "sched:thread", "a listener did not run on the event loop");
            VH_CHECK(b.inLoop.fetch_add(1) == 0, "sched:loop-overlap", "a listener overlapped with a task");
            b.inLoop.fetch_sub(1);
            if (x > 0) { seen.store(x); vh::progress(); }
        });
        Publisher<long> *mark = prov->template getPublisher<long>("mark", 0, nullptr, nullptr);
        prov->start();
        mark->publish(0L);
        vh::waitUntil("the loop to run", [&] { return known.load(); });
        b.sched = prov->getScheduler(name);
        VH_CHECK(prov->getScheduler(name) == b.sched, "sched:two-schedulers", "two schedulers for one loop");
        auto *tasks = static_cast<EventLoopPublisher<std::function<void()>, N> *>(
            prov->template getPublisher<std::function<void()>>(name.empty() ? "EVENTLOOP_SCHEDULER" : name, 0, nullptr, nullptr));
        b.dropped = [tasks] { return __atomic_load_n(&tasks->_discardedMessages, __ATOMIC_RELAXED) > 0; };
        long marks = 0;
        auto flush = [&] {
            long k = ++marks;
            vh::waitUntil("what was queued to be processed", [&, k] {
                if (seen.load() >= k) return true;
                mark->publish(k);
                return false;
            });
        };
        std::atomic<bool> done{false};
        std::thread other;
        if (traffic)
            other = std::thread([&] {
                Publisher<long> *p = mark;
                while (!done.load()) { p->publish(-1L); usleep(100); }
            });
        script(b, flush, [&] {
            done = true;
            if (other.joinable()) other.join();
            vh::count("cases_with_a_full_ring", b.dropped());
            if (c.rng.chance(1, 2)) prov->stop();
            prov.reset();
        });
        vh::count("loop_task_runs", b.loopRuns.load());
    }
    if (cont) VH_CHECK(box.subs.empty() && box.pubs.empty(), "sched:left-attached", "statistics left in the container");
}
} // namespace

VH_SCENARIO(sched_loop) {
    if (c.rng.chance(1, 2)) loopCase<64>(c);
    else loopCase<256>(c);
}
