// Stand-in for the KlepsydraSDK (a package this sandbox does not have). Only the
// interfaces kpsr-core includes are modelled; every counter is atomic so that the
// stand-in itself can never be the subject of a race report.
#pragma once
#include <atomic>
#include <string>
namespace kpsr {
template<class T> struct StatCounter : public std::atomic<T> {
    StatCounter(T v = T()) : std::atomic<T>(v) {}
    StatCounter(const StatCounter &o) : std::atomic<T>(o.load()) {}
    StatCounter &operator=(const StatCounter &o) { this->store(o.load()); return *this; }
    using std::atomic<T>::operator=;
};
struct FunctionStats {
    explicit FunctionStats(const std::string &n) : name(n), totalProcessed(0), totalProcessingTimeInNanoSecs(0),
          running(false), openMeasures(0), startCalls(0), stopCalls(0) {}
    virtual ~FunctionStats() {}
    FunctionStats(const FunctionStats &) = delete;
    FunctionStats &operator=(const FunctionStats &) = delete;
    virtual void start() { running = true; ++startCalls; }
    virtual void stop() { running = false; ++stopCalls; }
    virtual void startProcessMeasure() { ++openMeasures; }
    virtual void stopProcessMeasure() { --openMeasures; ++totalProcessed; }
    std::string name;
    StatCounter<long long> totalProcessed;
    StatCounter<long long> totalProcessingTimeInNanoSecs;
    std::atomic<bool> running;
    std::atomic<int> openMeasures;
    std::atomic<int> startCalls, stopCalls;
};
}
