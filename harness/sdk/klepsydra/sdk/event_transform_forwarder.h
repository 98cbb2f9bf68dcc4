#pragma once
#include <functional>
#include <klepsydra/sdk/publisher.h>
namespace kpsr {
template<class S, class T>
class EventTransformForwarder {
public:
    EventTransformForwarder(const std::function<void(const S &, T &)> &fn, Publisher<T> *publisher) : _fn(fn), _publisher(publisher) {
        forwarderListenerFunction = std::bind(&EventTransformForwarder<S, T>::onEventReceived, this, std::placeholders::_1);
    }
    EventTransformForwarder(const EventTransformForwarder &) = delete;
    virtual ~EventTransformForwarder() {}
    virtual void onEventReceived(const S &event) {
        _publisher->processAndPublish([this, &event](T &out) { _fn(event, out); });
    }
    std::function<void(const S &)> forwarderListenerFunction;
protected:
    std::function<void(const S &, T &)> _fn;
    Publisher<T> *_publisher;
};
}
