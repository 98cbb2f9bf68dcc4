#pragma once
#include <functional>
#include <memory>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/publication_stats.h>
namespace kpsr {
template<class T>
class Publisher {
public:
    Publisher(Container *c, const std::string &n, const std::string &type) : container(c), publicationStats(n, type), name(n) {
        if (container) container->attach(&publicationStats);
    }
    virtual ~Publisher() { if (container) container->detach(&publicationStats); }
    Publisher(const Publisher &) = delete;
    void publish(const T &event) {
        publicationStats.startProcessMeasure();
        internalPublish(event);
        publicationStats.stopProcessMeasure();
    }
    void publish(std::shared_ptr<const T> event) {
        publicationStats.startProcessMeasure();
        internalPublish(event);
        publicationStats.stopProcessMeasure();
    }
    virtual void processAndPublish(std::function<void(T &)> process) = 0;
    void setContainer(Container *c) {
        if (container) container->detach(&publicationStats);
        container = c;
        if (container) container->attach(&publicationStats);
    }
    Container *container;
    PublicationStats publicationStats;
    std::string name;
protected:
    virtual void internalPublish(const T &event) = 0;
    virtual void internalPublish(std::shared_ptr<const T> event) = 0;
};
}
