#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
class Container;
struct SubscriptionStats : public FunctionStats {
    SubscriptionStats(const std::string &subscriberName, const std::string &listenerName, const std::string &t, bool = false)
        : FunctionStats(subscriberName + "_" + listenerName), type(t), totalDiscardedEvents(0), totalEnqueuedTimeInNs(0) {}
    SubscriptionStats(const std::string &subscriberName, const std::string &listenerName, const std::string &t, Container *)
        : SubscriptionStats(subscriberName, listenerName, t, false) {}
    SubscriptionStats(const std::string &subscriberName, const std::string &listenerName, const std::string &t, std::nullptr_t)
        : SubscriptionStats(subscriberName, listenerName, t, false) {}
    std::string type;
    StatCounter<long long> totalDiscardedEvents;
    StatCounter<long long unsigned int> totalEnqueuedTimeInNs;
};
}
