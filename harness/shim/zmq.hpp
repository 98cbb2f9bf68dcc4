// Stand-in for cppzmq's zmq.hpp (absent here) over the real libzmq: the part of its interface, with its
// semantics (errors thrown as zmq::error_t), that /repo uses. It also
//   * reports a socket used by two threads at a time or a multi-part message interrupted by another thread,
//   * can make polls fail with EINTR, as a signal does,
//   * tells ThreadSanitizer that a message sent happens before it is received.
#pragma once
#include <atomic>
#include <cerrno>
#include <cstring>
#include <exception>
#include <optional>
#include <string>
#include <thread>
#include <zmq.h>
#if defined(__SANITIZE_THREAD__)
extern "C" {
void __tsan_acquire(void *);
void __tsan_release(void *);
// libzmq is not instrumented: what it synchronises is unknown, except through the annotations here.
__attribute__((weak, no_sanitize("thread"))) const char *__tsan_default_suppressions() { return "called_from_lib:libzmq.so\n"; }
}
#define ZSHIM_REL() __tsan_release(&::zmq::shimSync())
#define ZSHIM_ACQ() __tsan_acquire(&::zmq::shimSync())
#else
#define ZSHIM_REL() (void) 0
#define ZSHIM_ACQ() (void) 0
#endif

namespace zmq {
inline long &shimSync() { static long x; return x; }
inline std::atomic<int> &shimInterrupts() { static std::atomic<int> x{0}; return x; }   // how many polls are still to be interrupted
inline std::atomic<long> &shimInterrupted() { static std::atomic<long> x{0}; return x; }
void shimMisuse(const char *what);                                                       // provided by the harness

class error_t : public std::exception {
public:
    error_t() noexcept : _errnum(zmq_errno()) {}
    explicit error_t(int e) noexcept : _errnum(e) {}
    const char *what() const noexcept override { return zmq_strerror(_errnum); }
    int num() const noexcept { return _errnum; }
private:
    int _errnum;
};

using pollitem_t = zmq_pollitem_t;
inline int poll(pollitem_t *items, size_t n, long timeout = -1) {
    int left = shimInterrupts().load();
    while (left > 0 && !shimInterrupts().compare_exchange_weak(left, left - 1)) {}
    if (left > 0) { shimInterrupted()++; errno = EINTR; throw error_t(EINTR); }
    int rc = zmq_poll(items, (int) n, timeout);
    if (rc < 0) throw error_t();
    return rc;
}

class context_t {
public:
    explicit context_t(int io = 1) : _p(zmq_ctx_new()) { zmq_ctx_set(_p, ZMQ_IO_THREADS, io); }
    ~context_t() { zmq_ctx_term(_p); }
    context_t(const context_t &) = delete;
    operator void *() { return _p; }
private:
    void *_p;
};

class message_t {
public:
    message_t() { zmq_msg_init(&_m); }
    explicit message_t(size_t n) { if (zmq_msg_init_size(&_m, n)) throw error_t(); }
    message_t(const void *d, size_t n) { if (zmq_msg_init_size(&_m, n)) throw error_t(); if (n) memcpy(data(), d, n); }
    message_t(message_t &&o) noexcept { zmq_msg_init(&_m); zmq_msg_move(&_m, &o._m); }
    message_t &operator=(message_t &&o) noexcept { zmq_msg_move(&_m, &o._m); return *this; }
    message_t(const message_t &) = delete;
    void operator=(const message_t &) = delete;
    ~message_t() { zmq_msg_close(&_m); }
    void rebuild() { zmq_msg_close(&_m); zmq_msg_init(&_m); }
    void *data() { return zmq_msg_data(&_m); }
    const void *data() const { return zmq_msg_data(const_cast<zmq_msg_t *>(&_m)); }
    template<class T> T *data() { return static_cast<T *>(data()); }
    size_t size() const { return zmq_msg_size(const_cast<zmq_msg_t *>(&_m)); }
    bool empty() const { return size() == 0; }
    bool more() const { return zmq_msg_more(const_cast<zmq_msg_t *>(&_m)); }
    std::string to_string() const { return std::string(static_cast<const char *>(data()), size()); }
    zmq_msg_t *handle() { return &_m; }
private:
    zmq_msg_t _m;
};

class const_buffer {
public:
    const_buffer() = default;
    const_buffer(const void *d, size_t n) : _d(d), _n(n) {}
    const void *data() const { return _d; }
    size_t size() const { return _n; }
private:
    const void *_d = nullptr;
    size_t _n = 0;
};
inline const_buffer buffer(const void *d, size_t n) { return const_buffer(d, n); }
inline const_buffer buffer(const std::string &s) { return const_buffer(s.data(), s.size()); }

enum class send_flags : int { none = 0, dontwait = ZMQ_DONTWAIT, sndmore = ZMQ_SNDMORE };
enum class recv_flags : int { none = 0, dontwait = ZMQ_DONTWAIT };
inline send_flags operator|(send_flags a, send_flags b) { return (send_flags) ((int) a | (int) b); }
using send_result_t = std::optional<size_t>;
using recv_result_t = std::optional<size_t>;

class socket_t {
public:
    socket_t(context_t &c, int type) : _p(zmq_socket(c, type)) { if (!_p) throw error_t(); }
    ~socket_t() { close(); }
    socket_t(const socket_t &) = delete;
    void close() { if (_p) { int z = 0; zmq_setsockopt(_p, ZMQ_LINGER, &z, sizeof z); zmq_close(_p); _p = nullptr; } }
    operator void *() { return _p; }
    void *handle() { return _p; }
    void bind(const std::string &a) { if (zmq_bind(_p, a.c_str())) throw error_t(); }
    void connect(const std::string &a) { if (zmq_connect(_p, a.c_str())) throw error_t(); }
    void setsockopt(int o, const void *v, size_t n) { if (zmq_setsockopt(_p, o, v, n)) throw error_t(); }
    template<class T> void setsockopt(int o, const T &v) { setsockopt(o, &v, sizeof v); }
    template<class T> T getsockopt(int o) { T v; size_t n = sizeof v; if (zmq_getsockopt(_p, o, &v, &n)) throw error_t(); return v; }
    send_result_t send(const_buffer b, send_flags f = send_flags::none) {
        message_t m(b.data(), b.size());
        return send(m, f);
    }
    send_result_t send(message_t &m, send_flags f) {
        Use u(*this);
        part((int) f);
        ZSHIM_REL();
        int r = zmq_msg_send(m.handle(), _p, (int) f);
        if (r >= 0) return (size_t) r;
        if (zmq_errno() == EAGAIN) return {};
        throw error_t();
    }
    send_result_t send(message_t &&m, send_flags f) { return send(m, f); }
    bool send(message_t &m, int f = 0) { return (bool) send(m, (send_flags) f); }
    bool send(message_t &&m, int f = 0) { return (bool) send(m, (send_flags) f); }
    recv_result_t recv(message_t &m, recv_flags f = recv_flags::none) {
        Use u(*this);
        int r = zmq_msg_recv(m.handle(), _p, (int) f);
        if (r >= 0) { ZSHIM_ACQ(); return (size_t) r; }
        if (zmq_errno() == EAGAIN) return {};
        throw error_t();
    }
private:
    struct Use {
        socket_t &s;
        explicit Use(socket_t &s_) : s(s_) { if (s._users.fetch_add(1)) shimMisuse("a socket is used by two threads at the same time"); }
        ~Use() { s._users.fetch_sub(1); }
    };
    void part(int flags) {
        if (_open && _sender != std::this_thread::get_id()) shimMisuse("a multi-part message was interrupted by another thread");
        _open = flags & ZMQ_SNDMORE;
        _sender = std::this_thread::get_id();
    }
    void *_p;
    std::atomic<int> _users{0};
    bool _open = false;
    std::thread::id _sender;
};
} // namespace zmq
