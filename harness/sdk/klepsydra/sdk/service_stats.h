#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
struct ServiceStats : public FunctionStats {
    explicit ServiceStats(const std::string &n) : FunctionStats(n) {}
};
}
