#pragma once
#include <klepsydra/sdk/environment.h>
#include <klepsydra/sdk/function_stats.h>
#include <klepsydra/sdk/publication_stats.h>
#include <klepsydra/sdk/service_stats.h>
#include <klepsydra/sdk/subscription_stats.h>
namespace kpsr {
class Service;
class Container {
public:
    virtual ~Container() {}
    virtual void start() = 0;
    virtual void stop() = 0;
    virtual void attach(Service *service) = 0;
    virtual void detach(Service *service) = 0;
    virtual void attach(FunctionStats *) = 0;
    virtual void detach(FunctionStats *) = 0;
    virtual void attach(ServiceStats *) = 0;
    virtual void attach(PublicationStats *) = 0;
    virtual void detach(PublicationStats *) = 0;
    virtual void attach(SubscriptionStats *) = 0;
    virtual void detach(SubscriptionStats *) = 0;
    virtual std::string getName() const = 0;
    virtual Environment *getEnvironment() const = 0;
};
}
