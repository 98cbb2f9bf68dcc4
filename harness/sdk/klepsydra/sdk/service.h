#pragma once
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/environment.h>
#include <klepsydra/sdk/service_stats.h>
namespace kpsr {
class Service {
public:
    Service(Container *container, Environment *environment, const std::string &serviceName, bool isStandalone = true)
        : serviceStats(serviceName), _container(container), _environment(environment), _isStandalone(isStandalone) {
        if (_container) _container->attach(this);
    }
    virtual ~Service() { if (_container) _container->detach(this); }
    virtual void startup() { start(); _started = true; }
    virtual void shutdown() { _started = false; stop(); }
    virtual void runOnce() {
        if (!_started) return;
        serviceStats.startProcessMeasure();
        execute();
        serviceStats.stopProcessMeasure();
    }
    ServiceStats serviceStats;
protected:
    virtual void start() = 0;
    virtual void stop() = 0;
    virtual void execute() = 0;
    Container *_container;
    Environment *_environment;
    bool _isStandalone;
    std::atomic<bool> _started{false};
};
}
