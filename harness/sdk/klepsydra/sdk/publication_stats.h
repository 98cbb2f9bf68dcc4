#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
struct PublicationStats : public FunctionStats {
    PublicationStats(const std::string &n, const std::string &t) : FunctionStats(n), type(t), totalDiscardedEvents(0), _totalEventAllocations(0) {}
    std::string type;
    StatCounter<long long> totalDiscardedEvents;
    StatCounter<long long> _totalEventAllocations;
};
}
