// A container that only watches: every object attached once and detached once; detaching nothing is harmless.
#pragma once
#include "vh.hpp"
#include <klepsydra/sdk/container.h>
#include <set>
struct MonContainer : kpsr::Container {
    std::mutex m;
    std::set<const void *> subs, pubs, funs, servs, servStats;
    template<class X> void in(std::set<const void *> &s, X *x, const char *what) {
        std::lock_guard<std::mutex> g(m);
        VH_CHECK(x != nullptr, "container:null", "null " << what << " attached");
        VH_CHECK(s.insert(x).second, "container:twice", what << " attached twice");
    }
    template<class X> void out(std::set<const void *> &s, X *x, const char *what) {
        std::lock_guard<std::mutex> g(m);
        if (!x) return;
        VH_CHECK(s.erase(x), "container:unknown", what << " detached that was not attached");
    }
    void start() override {}
    void stop() override {}
    void attach(kpsr::Service *x) override { in(servs, x, "service"); }
    void detach(kpsr::Service *x) override { out(servs, x, "service"); }
    void attach(kpsr::FunctionStats *x) override { in(funs, x, "function"); }
    void detach(kpsr::FunctionStats *x) override { out(funs, x, "function"); }
    void attach(kpsr::ServiceStats *x) override { in(servStats, x, "service statistics"); }
    void attach(kpsr::PublicationStats *x) override { in(pubs, x, "publication statistics"); }
    void detach(kpsr::PublicationStats *x) override { out(pubs, x, "publication statistics"); }
    void attach(kpsr::SubscriptionStats *x) override { in(subs, x, "subscription statistics"); }
    void detach(kpsr::SubscriptionStats *x) override { out(subs, x, "subscription statistics"); }
    std::string getName() const override { return "monitor"; }
    kpsr::Environment *getEnvironment() const override { return nullptr; }
    size_t subscriptions() { std::lock_guard<std::mutex> g(m); return subs.size(); }
    bool has(const void *x) { std::lock_guard<std::mutex> g(m); return subs.count(x); }
};
