#pragma once
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/subscription_stats.h>
namespace kpsr {
template<class T>
class Subscriber {
public:
    Subscriber(Container *c, const std::string &n, const std::string &t) : container(c), name(n), type(t) {}
    virtual ~Subscriber() {}
    virtual void registerListenerOnce(const std::function<void(const T &)> listener) = 0;
    virtual void registerListener(const std::string &name, const std::function<void(const T &)> listener) = 0;
    virtual void registerSharedPtrListener(const std::string &, const std::function<void(const std::shared_ptr<const T> &)>) { throw std::logic_error("unsupported"); }
    virtual void registerSharedPtrListenerOnce(const std::function<void(const std::shared_ptr<const T> &)>) { throw std::logic_error("unsupported"); }
    virtual void removeListener(const std::string &name) = 0;
    virtual std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name) = 0;
    void setContainer(Container *c) { container = c; }
    Container *container;
    std::string name;
    std::string type;
};
}
