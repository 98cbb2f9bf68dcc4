#pragma once
#include <chrono>
#include <ctime>
namespace kpsr {
class TimeUtils {
public:
    static long getCurrentNanoseconds() { return std::chrono::steady_clock::now().time_since_epoch().count(); }
    static long long unsigned int getCurrentNanosecondsAsLlu() { return (long long unsigned) std::chrono::steady_clock::now().time_since_epoch().count(); }
    static long getCurrentMilliseconds() { return getCurrentNanoseconds() / 1000000L; }
    static long long unsigned int getCurrentMillisecondsAsLlu() { return getCurrentNanosecondsAsLlu() / 1000000ULL; }
};
}
