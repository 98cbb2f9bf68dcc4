// C21: socket messages arrive byte for byte.  C22: descriptors are owned once, failures are exceptions.
// System calls of the library are wrapped at link time (--wrap) to inject legal transport behaviour and to keep
// a table of descriptors.
#include "vh.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include <climits>
#include <csignal>
#include <fcntl.h>
#include <klepsydra/socket_core/connect_socket.h>
#include <klepsydra/socket_core/protocol_simple.h>
#include <klepsydra/socket_core/server_socket.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>

using namespace kpsr::socket_mdlw;

namespace {
struct Faults {
    int shortIo = 0, eintr = 0, eagain = 0;      // per mille
    long readFailAfter = -1, writeFailAfter = -1; // bytes
    int readErr = 0, writeErr = 0;
    int closeErr = 0;
    const char *failCall = nullptr;              // the next call of this name fails ...
    int callErr = 0, passFirst = 0;              // ... with this, after so many that do not
};
// per thread: the fault plan of the socket user running there
thread_local Faults *tFaults = nullptr;
thread_local vh::Rng *tRng = nullptr;
thread_local long tRead = 0, tWritten = 0;
std::atomic<long> gShort{0}, gIntr{0}, gHard{0}, gCloses{0};

std::mutex gTabM;
std::set<int> gTab;              // descriptors the library has open
bool gTrack = false;
void tabAdd(int fd) {
    std::lock_guard<std::mutex> l(gTabM);
    if (fd >= 0) gTab.insert(fd);
}
struct FaultScope {
    FaultScope(Faults *f, vh::Rng *r) { tFaults = f; tRng = r; tRead = tWritten = 0; }
    ~FaultScope() { tFaults = nullptr; tRng = nullptr; }
};
bool inject(bool rd, size_t &n, ssize_t &res) {
    vh::progress();
    if (!tFaults) return false;
    Faults &f = *tFaults;
    long failAt = rd ? f.readFailAfter : f.writeFailAfter;
    long &done = rd ? tRead : tWritten;
    if (failAt >= 0) {
        if (done >= failAt) {
            gHard.fetch_add(1, std::memory_order_relaxed);
            errno = rd ? f.readErr : f.writeErr;
            res = -1;
            return true;
        }
        n = std::min<size_t>(n, (size_t) (failAt - done));
    }
    if ((int) tRng->below(1000) < f.eintr) { gIntr.fetch_add(1, std::memory_order_relaxed); errno = EINTR; res = -1; return true; }
    if ((int) tRng->below(1000) < f.eagain) { gIntr.fetch_add(1, std::memory_order_relaxed); errno = EAGAIN; res = -1; return true; }
    if (n > 1 && (int) tRng->below(1000) < f.shortIo) {
        gShort.fetch_add(1, std::memory_order_relaxed);
        n = tRng->chance(1, 3) ? 1 : 1 + tRng->below(n);
    }
    return false;
}
} // namespace

extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_send(int, const void *, size_t, int);
int __real_close(int);
int __real_socket(int, int, int);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __real_bind(int, const struct sockaddr *, socklen_t);
int __real_listen(int, int);
int __real_connect(int, const struct sockaddr *, socklen_t);
static bool failCall(const char *name) {
    if (!tFaults || !tFaults->failCall || strcmp(tFaults->failCall, name) || tFaults->passFirst-- > 0) return false;
    errno = tFaults->callErr;
    tFaults->failCall = nullptr;
    return true;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) { return failCall("bind") ? -1 : __real_bind(fd, a, l); }
int __wrap_listen(int fd, int n) { return failCall("listen") ? -1 : __real_listen(fd, n); }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) { return failCall("connect") ? -1 : __real_connect(fd, a, l); }

ssize_t __wrap_read(int fd, void *b, size_t n) {
    ssize_t res;
    if (inject(true, n, res)) return res;
    res = __real_read(fd, b, n);
    if (res > 0) tRead += res;
    return res;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) {
    ssize_t res;
    if (inject(true, n, res)) return res;
    res = __real_recv(fd, b, n, fl);
    if (res > 0) tRead += res;
    return res;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    ssize_t res;
    if (inject(false, n, res)) return res;
    res = __real_write(fd, b, n);
    if (res > 0) tWritten += res;
    return res;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) {
    ssize_t res;
    if (inject(false, n, res)) return res;
    res = __real_send(fd, b, n, fl);
    if (res > 0) tWritten += res;
    return res;
}
int __wrap_close(int fd) {
    gCloses.fetch_add(1, std::memory_order_relaxed);
    if (gTrack) {
        std::lock_guard<std::mutex> l(gTabM);
        VH_CHECK(gTab.erase(fd) == 1, "socket:closed-foreign-descriptor", "the library closed descriptor " << fd << ", which it does not own (closed already or somebody else's)");
    }
    int r = __real_close(fd);
    if (tFaults && tFaults->closeErr) { errno = tFaults->closeErr; return -1; }
    return r;
}
int __wrap_socket(int a, int b, int c) { if (failCall("socket")) return -1; int e = errno; int r = __real_socket(a, b, c); if (r >= 0) errno = e; tabAdd(r); return r; }
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { if (failCall("accept")) return -1; int r = __real_accept(fd, a, l); tabAdd(r); return r; }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { if (failCall("accept")) return -1; int r = __real_accept4(fd, a, l, f); tabAdd(r); return r; }
}

namespace {
struct Server : ServerSocket {
    using ServerSocket::ServerSocket;
    using BaseSocket::getSocketId;
};
struct Data : DataSocket {
    using DataSocket::DataSocket;
    using BaseSocket::getSocketId;
};
int portOf(const Server &s) {
    sockaddr_in a{};
    socklen_t l = sizeof a;
    getsockname(s.getSocketId(), (sockaddr *) &a, &l);
    return ntohs(a.sin_port);
}
std::string bytes(vh::Rng &r, size_t n) {
    std::string s(n, 0);
    int kind = (int) r.below(3);
    for (size_t i = 0; i < n; ++i) s[i] = (char) (kind == 0 ? r.next() : kind == 1 ? r.below(3) : (i * 7 + n));
    return s;
}
size_t sizeOf(vh::Rng &r) {
    switch (r.below(6)) {
    case 0: return r.below(4);
    case 1: return r.range(12, 36);
    case 2: return r.below(400);
    case 3: return r.range(4090, 4100);
    case 4: return r.below(20000);
    default: return r.chance(1, 20) ? r.below(700000) : r.below(60000);
    }
}
Faults legalFaults(vh::Rng &r) {
    Faults f;
    if (r.chance(2, 3)) f.shortIo = (int) r.below(900);
    if (r.chance(1, 2)) f.eintr = (int) r.below(300);
    if (r.chance(1, 2)) f.eagain = (int) r.below(300);
    return f;
}
std::string firstDiff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    std::ostringstream o;
    o << "expected " << a.size() << " bytes, got " << b.size() << ", first difference at " << i;
    return o.str();
}
std::string transform(const std::string &s) {
    std::string t(s.rbegin(), s.rend());
    for (auto &ch : t) ch = (char) (ch ^ 0x5a);
    return t + (s.size() % 3 ? "" : "!");
}
int gPathNo = 0;
std::string newPath() { return "s" + std::to_string(gPathNo++); }
void reset() {
    std::lock_guard<std::mutex> l(gTabM);
    gTab.clear();
    gTrack = true;
}
void noLeak(const char *where) {
    std::lock_guard<std::mutex> l(gTabM);
    VH_CHECK(gTab.empty(), "socket:descriptor-leak", gTab.size() << " descriptor(s) still open after every socket object is gone (" << where << ")");
}
void onUsr(int) {}
void addPair(int sp[2]) {
    VH_CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, sp) == 0, "harness:socketpair", strerror(errno));
    tabAdd(sp[0]);
    tabAdd(sp[1]);
}
} // namespace

// Requests and replies of 1-4 clients through one server.
VH_SCENARIO(sock_message)
{
    auto &r = c.rng;
    reset();
    int clients = (int) r.range(1, 4), rounds = (int) r.range(1, 3);
    bool tcp = r.chance(1, 3);
    std::string path = newPath();
    std::unique_ptr<Server> server(tcp ? new Server(0) : new Server(path));
    int port = tcp ? portOf(*server) : 0;
    c.desc << clients << " clients x " << rounds << (tcp ? " over tcp" : " over a unix socket");
    std::vector<Faults> plans;
    for (int i = 0; i < 2 * clients; ++i) plans.push_back(legalFaults(r));
    std::vector<uint64_t> seeds;
    for (int i = 0; i < 2 * clients; ++i) seeds.push_back(r.next());
    long bigRoom = r.chance(1, 2) ? 0 : r.below(300000);
    c.mark(clients * 10 + rounds + tcp * 1000);
    std::atomic<long> messages{0}, totalBytes{0};
    gShort = 0; gIntr = 0;
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> th;
        std::mutex hm;
        std::vector<std::thread> handlers;
        std::thread acceptor([&] {
            for (int i = 0; i < clients * rounds; ++i) {
                std::shared_ptr<DataSocket> s;
                for (;;) {
                    try { s = server->accept(30); break; }
                    catch (std::runtime_error &e) { VH_CHECK(std::string(e.what()).find("Timed out") != std::string::npos, "socket:accept-failed", e.what()); }
                }
                int k = i % clients;
                handlers.emplace_back([&, s, k, i]() mutable {
                    vh::Rng rr(seeds[clients + k] + i);
                    Faults f = plans[clients + k];
                    FaultScope fs(&f, &rr);
                    ProtocolSimple p(s);
                    std::string m(rr.below(50), 'x');
                    if (bigRoom) m.reserve(bigRoom);
                    p.recvMessage(m);
                    p.sendMessage(transform(m));
                    s.reset();
                });
            }
        });
        for (int k = 0; k < clients; ++k)
            th.emplace_back([&, k] {
                vh::Rng rr(seeds[k]);
                for (int j = 0; j < rounds; ++j) {
                    std::shared_ptr<DataSocket> s;
                    for (int attempt = 0;; ++attempt) {
                        try {
                            s = tcp ? std::make_shared<ConnectSocket>("127.0.0.1", port) : std::make_shared<ConnectSocket>(path);
                            break;
                        } catch (std::runtime_error &e) {
                            // the backlog may be full for a moment
                            VH_CHECK(attempt < 2000, "socket:connect-failed", "client could not connect to a listening server: " << e.what());
                            usleep(1000);
                        }
                    }
                    Faults f = plans[k];
                    FaultScope fs(&f, &rr);
                    std::string m = bytes(rr, sizeOf(rr)), reply("leftover");
                    ProtocolSimple p(s);
                    p.sendMessage(m);
                    p.recvMessage(reply);
                    VH_CHECK(reply == transform(m), "socket:message-corrupted", "client " << k << " message of " << m.size() << " bytes: " << firstDiff(transform(m), reply));
                    messages.fetch_add(1, std::memory_order_relaxed);
                    totalBytes.fetch_add((long) m.size(), std::memory_order_relaxed);
                    vh::progress();
                }
            });
        vh::HarnessWait w("socket exchange");
        for (auto &t : th) t.join();
        acceptor.join();
        for (auto &t : handlers) t.join();
    }
    server.reset();
    if (!tcp) unlink(path.c_str());
    noLeak("exchange");
    vh::count("messages_round_trip", messages);
    vh::count("bytes_round_trip", totalBytes);
    vh::count("short_transfers", gShort);
    vh::count("interrupted_transfers", gIntr);
    c.mark((uint64_t) totalBytes.load());
    c.nontrivial = true;
}

// A stream read in pieces: counts, terminators, guard bytes.
VH_SCENARIO(sock_stream)
{
    auto &r = c.rng;
    reset();
    int sp[2];
    addPair(sp);
    std::string data = bytes(r, sizeOf(r));
    Faults fw = legalFaults(r), fr = legalFaults(r);
    gShort = 0; gIntr = 0; gHard = 0;
    bool breakRead = r.chance(1, 5), breakWrite = !breakRead && r.chance(1, 5);
    static const int kReadBroken[] = {ECONNRESET, ENOTCONN}, kReadErr[] = {EIO, ENOBUFS, ENOMEM, EFAULT, ENXIO, EISDIR};
    static const int kWriteErr[] = {EPIPE, ECONNRESET, EINVAL, ENXIO, EIO, ENOSPC, ENETDOWN, EACCES};
    bool readThrows = false;
    if (breakRead) {
        fr.readFailAfter = (long) r.below(data.size() + 1);
        readThrows = r.chance(1, 2);
        fr.readErr = readThrows ? kReadErr[r.below(6)] : kReadBroken[r.below(2)];
    }
    if (breakWrite) {
        fw.writeFailAfter = (long) r.below(data.size() + 1);
        fw.writeErr = kWriteErr[r.below(8)];
    }
    c.desc << data.size() << " bytes, read break at " << fr.readFailAfter << " errno " << fr.readErr << ", write break at " << fw.writeFailAfter << " errno " << fw.writeErr
           << " short " << fr.shortIo << "/" << fw.shortIo;
    c.mark(vh::hashStr(c.desc.str()));
    uint64_t ws = r.next(), rs = r.next();
    std::string got;
    bool writeThrew = false, readThrew = false;
    std::string writeWhat;
    long reads = 0, terminated = 0;
    {
        vh::WithNoise noise(c);
        auto a = std::make_shared<DataSocket>(sp[0]);
        auto b = std::make_shared<DataSocket>(sp[1]);
        std::thread w([&] {
            vh::Rng rr(ws);
            FaultScope fs(&fw, &rr);
            try {
                for (size_t p = 0; p < data.size();) {
                    size_t n = std::min<size_t>(data.size() - p, 1 + rr.below(rr.chance(1, 2) ? 100 : 100000));
                    a->putMessageData(data.data() + p, n);
                    p += n;
                    vh::progress();
                }
            } catch (std::exception &e) {
                writeThrew = true;
                writeWhat = e.what();
                bool dom = dynamic_cast<std::domain_error *>(&e), run = dynamic_cast<std::runtime_error *>(&e);
                VH_CHECK(dom || run, "socket:write-exception-type", "unexpected exception type: " << e.what());
                VH_CHECK(breakWrite || breakRead, "socket:write-failed", "writing to an open peer failed: " << e.what());
            }
            if (!breakRead) a->putMessageClose();
        });
        {
            vh::Rng rr(rs);
            FaultScope fs(&fr, &rr);
            std::vector<char> buf;
            vh::HarnessWait hw("stream read");
            for (;;) {
                size_t n = rr.chance(1, 8) ? 0 : 1 + rr.below(rr.chance(1, 2) ? 64 : 50000);
                buf.assign(n + 16, (char) 0x77);
                bool useEnd = rr.chance(1, 2);
                size_t endAt = rr.below(n + 1), prev = 0, calls = 0;
                bool fired = false, lateCall = false, notGrowing = false;
                size_t k;
                size_t before = got.size();
                try {
                    k = b->getMessageData(buf.data(), n, [&](std::size_t have) {
                        ++calls;
                        if (fired) lateCall = true;
                        if (have <= prev || have > n) notGrowing = true;
                        prev = have;
                        if (useEnd && have >= endAt) fired = true;
                        return fired;
                    });
                } catch (std::exception &e) {
                    readThrew = true;
                    VH_CHECK(breakRead && readThrows, "socket:read-threw", "reading failed although nothing did: " << e.what());
                    break;
                }
                ++reads;
                VH_CHECK(k <= n, "socket:read-overrun", "a read of at most " << n << " bytes returned " << k);
                for (size_t i = k; i < n + 16; ++i)
                    VH_CHECK(buf[i] == (char) 0x77 || i < n, "socket:buffer-overrun", "a read of at most " << n << " bytes wrote behind the buffer");
                VH_CHECK(!lateCall, "socket:scan-after-end", "the end predicate was asked again after it had said the message was complete");
                VH_CHECK(!notGrowing, "socket:scan-arguments", "the end predicate was given counts that do not grow or exceed the buffer");
                VH_CHECK(k == prev || calls == 0, "socket:read-count", "the read returned " << k << " but the predicate last saw " << prev);
                got.append(buf.data(), k);
                VH_CHECK(got.compare(before, k, data, before, k) == 0 && got.size() <= data.size(), "socket:stream-corrupted", firstDiff(data, got));
                if (fired) ++terminated;
                if (k < n && !fired) break; // end of stream
            }
            if (breakRead) b.reset(); // lets the writer end
        }
        w.join();
        if (!breakRead && !breakWrite) {
            VH_CHECK(got == data, "socket:stream-incomplete", firstDiff(data, got));
        } else if (breakRead && !readThrows && fr.readFailAfter >= 0) {
            VH_CHECK(got.size() == (size_t) fr.readFailAfter || got.size() == data.size(), "socket:broken-connection-data",
                     "the connection broke after " << fr.readFailAfter << " bytes had arrived; the reader was given " << got.size());
            vh::count("broken_reads");
        } else if (breakWrite) {
            VH_CHECK((long) got.size() == std::min<long>(fw.writeFailAfter, (long) data.size()), "socket:partial-write", "the writer failed after " << fw.writeFailAfter << " bytes, the reader got " << got.size());
            VH_CHECK(writeThrew == ((size_t) fw.writeFailAfter < data.size()), "socket:write-error-swallowed", "a failing write was not reported (errno " << fw.writeErr << ")");
            vh::count("failed_writes");
        }
        if (breakRead && readThrows && (size_t) fr.readFailAfter < data.size())
            VH_CHECK(readThrew, "socket:read-error-swallowed", "a failing read (errno " << fr.readErr << ") was not reported; " << got.size() << " of " << data.size() << " bytes read");
    }
    noLeak("stream");
    vh::count("short_transfers", gShort);
    vh::count("interrupted_transfers", gIntr);
    vh::count("stream_reads", reads);
    vh::count("terminated_reads", terminated);
    c.nontrivial = true;
}

// A random script over socket objects against a model of who owns which descriptor.
VH_SCENARIO(sock_own)
{
    auto &r = c.rng;
    reset();
    signal(SIGPIPE, SIG_DFL);
    std::vector<std::unique_ptr<Data>> objs;
    std::vector<int> model; // descriptor or -1
    std::vector<int> peers;
    std::vector<int> peerOf;
    Faults f;
    FaultScope fs(&f, &r);
    long ops = 0, misuse = 0;
    auto open = [&](int fd) {
        std::lock_guard<std::mutex> l(gTabM);
        return gTab.count(fd) == 1;
    };
    auto setErrno = [&] {
        static const int es[] = {0, EINTR, EBADF, EIO, EAGAIN, ECONNREFUSED, EPIPE};
        errno = es[r.below(7)];
    };
    std::map<int, int> peer; // descriptor -> peer's descriptor (harness side)
    int n = (int) r.range(10, 60);
    for (int i = 0; i < n; ++i) {
        int k = (int) r.below(9);
        size_t x = objs.empty() ? 0 : r.below(objs.size()), y = objs.empty() ? 0 : r.below(objs.size());
        ++ops;
        vh::progress();
        if (k == 0 || objs.empty()) {
            int sp[2];
            VH_CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, sp) == 0, "harness:socketpair", strerror(errno));
            tabAdd(sp[0]);
            setErrno();
            objs.emplace_back(new Data(sp[0]));
            model.push_back(sp[0]);
            peer[sp[0]] = sp[1];
        } else if (k == 1) {
            setErrno();
            objs.emplace_back(new Data(std::move(*objs[x])));
            model.push_back(model[x]);
            model[x] = -1;
        } else if (k == 2) {
            if (x == y) continue;
            setErrno();
            *objs[x] = std::move(*objs[y]);
            std::swap(model[x], model[y]); // the other takes what this one had, or closes it
            int after = objs[y]->getSocketId();
            if (after == -1 && model[y] != -1) {
                VH_CHECK(!open(model[y]), "socket:lost-descriptor", "an assignment dropped descriptor " << model[y] << " without closing it");
                __real_close(peer[model[y]]);
                peer.erase(model[y]);
                model[y] = -1;
            }
        } else if (k == 3) {
            setErrno();
            objs[x]->swap(*objs[y]);
            if (x != y) std::swap(model[x], model[y]);
        } else if (k == 4) {
            f.closeErr = r.chance(1, 4) ? (r.chance(1, 2) ? EINTR : EIO) : 0;
            setErrno();
            bool threw = false, logic = false;
            std::string what;
            try { objs[x]->close(); }
            catch (std::logic_error &e) { threw = logic = true; what = e.what(); }
            catch (std::exception &e) { threw = true; what = e.what(); }
            int ce = f.closeErr;
            f.closeErr = 0;
            if (model[x] == -1) {
                VH_CHECK(logic, "socket:close-of-closed", "closing a closed or moved socket did not report an error");
                ++misuse;
            } else {
                VH_CHECK(!open(model[x]), "socket:close-did-nothing", "close() left descriptor " << model[x] << " open");
                VH_CHECK(!threw || ce == EIO, "socket:close-threw", "closing an open socket reported an error: " << what);
                __real_close(peer[model[x]]);
                peer.erase(model[x]);
                model[x] = -1;
            }
        } else if (k == 5) {
            setErrno();
            f.closeErr = r.chance(1, 6) ? EINTR : 0;
            objs.erase(objs.begin() + (long) x);
            f.closeErr = 0;
            if (model[x] != -1) {
                VH_CHECK(!open(model[x]), "socket:destroy-leaks", "a destroyed socket left descriptor " << model[x] << " open");
                __real_close(peer[model[x]]);
                peer.erase(model[x]);
            }
            model.erase(model.begin() + (long) x);
        } else if (k == 6) {
            // use
            std::string m = bytes(r, 1 + r.below(50));
            setErrno();
            bool threw = false;
            try { objs[x]->putMessageData(m.data(), m.size()); } catch (std::exception &) { threw = true; }
            VH_CHECK(threw == (model[x] == -1), "socket:use-outcome", "writing on " << (model[x] == -1 ? "a closed or moved" : "an open") << " socket " << (threw ? "failed" : "did not fail"));
            if (model[x] != -1) {
                std::string g(m.size(), 0);
                long got = 0;
                while (got < (long) m.size()) {
                    ssize_t q = ::__real_read(peer[model[x]], &g[got], m.size() - got);
                    VH_CHECK(q > 0, "socket:wrong-descriptor", "what was written did not arrive at the peer of the owned descriptor");
                    got += q;
                }
                VH_CHECK(g == m, "socket:wrong-data", "another message arrived");
            } else ++misuse;
        } else if (k == 7) {
            if (model[x] == -1) {
                char b[4];
                bool threw = false;
                try { objs[x]->getMessageData(b, 4, [](std::size_t) { return false; }); } catch (std::exception &) { threw = true; }
                VH_CHECK(threw, "socket:use-outcome", "reading from a closed or moved socket did not fail");
                ++misuse;
            } else {
                std::string m = bytes(r, 1 + r.below(50)), g(m.size(), 0);
                VH_CHECK(__real_send(peer[model[x]], m.data(), m.size(), 0) == (ssize_t) m.size(), "harness:send", strerror(errno));
                setErrno();
                size_t q = objs[x]->getMessageData(&g[0], g.size(), [](std::size_t) { return false; });
                VH_CHECK(q == m.size() && g == m, "socket:wrong-data", "the message sent to the owned descriptor's peer did not arrive");
            }
        } else {
            if (model[x] == -1) {
                bool threw = false;
                try { objs[x]->putMessageClose(); } catch (std::exception &) { threw = true; }
                VH_CHECK(threw, "socket:use-outcome", "ending the message on a closed or moved socket did not fail");
                ++misuse;
            }
        }
        for (size_t q = 0; q < objs.size(); ++q) {
            VH_CHECK(objs[q]->getSocketId() == model[q], "socket:ownership", "object " << q << " holds descriptor " << objs[q]->getSocketId() << " but should hold " << model[q]);
            VH_CHECK(model[q] == -1 || open(model[q]), "socket:closed-too-early", "descriptor " << model[q] << " was closed while owned");
        }
    }
    objs.clear();
    for (auto &p : peer) __real_close(p.second);
    noLeak("ownership script");
    c.desc << ops << " operations, " << misuse << " uses of closed sockets";
    c.mark(vh::hashStr(c.desc.str()) + c.seed);
    c.nontrivial = misuse > 0;
    vh::count("ownership_operations", ops);
    vh::count("uses_of_closed_sockets", misuse);
    vh::count("closes_watched", gCloses.exchange(0));
}

// Failures reach the caller as exceptions and leak nothing.
VH_SCENARIO(sock_fail)
{
    auto &r = c.rng;
    reset();
    signal(SIGPIPE, SIG_DFL);
    int kind = (int) r.below(11);
    static const char *names[] = {"connect refused", "connect to nothing", "path in use", "peer gone while writing", "peer gone while reading", "accept timeout",
                                  "accept interrupted", "low or high descriptor", "address that does not fit", "bad host or no descriptors", "system calls that fail"};
    c.desc << names[kind];
    c.mark(kind);
    auto mustThrow = [&](const char *what, const char *text, const std::function<void()> &fn) {
        static const int es[] = {0, EINTR, EBADF, EIO, EAGAIN};
        errno = es[r.below(5)];
        try { fn(); }
        catch (std::exception &e) {
            bool dom = dynamic_cast<std::domain_error *>(&e), run = dynamic_cast<std::runtime_error *>(&e);
            VH_CHECK(dom || run, "socket:exception-type", what << ": " << e.what());
            VH_CHECK(!text || std::string(e.what()).find(text) != std::string::npos, "socket:failure-misreported", what << " was reported as: " << e.what());
            vh::count("failures_reported");
            return;
        }
        VH_CHECK(false, "socket:failure-swallowed", what << " was not reported");
    };
    switch (kind) {
    case 0: {
        std::string p = newPath();
        { Server s(p); }
        mustThrow("connecting to a closed server", strerror(ECONNREFUSED), [&] { ConnectSocket s(p); });
        unlink(p.c_str());
        int port;
        { Server s(0); port = portOf(s); }
        mustThrow("connecting to a closed port", strerror(ECONNREFUSED), [&] { ConnectSocket s("127.0.0.1", port); });
        break;
    }
    case 1: {
        std::string p = newPath();
        mustThrow("connecting to a missing path", strerror(ENOENT), [&] { ConnectSocket s(p); });
        break;
    }
    case 2: {
        std::string p = newPath();
        Server s(p);
        mustThrow("listening on a path in use", strerror(EADDRINUSE), [&] { Server t(p); });
        Server q(0);
        mustThrow("listening on a port in use", strerror(EADDRINUSE), [&] { Server t(portOf(q)); });
        // the first server still works
        ConnectSocket cs(p);
        auto d = s.accept(20);
        VH_CHECK(!!d, "socket:accept-null", "accept returned nothing");
        unlink(p.c_str());
        break;
    }
    case 3: {
        int sp[2];
        addPair(sp);
        auto a = std::make_shared<DataSocket>(sp[0]);
        { DataSocket b(sp[1]); }
        std::string m = bytes(r, 1 + r.below(100000));
        // would end the process if SIGPIPE were raised
        mustThrow("writing to a peer that is gone", nullptr, [&] { for (int i = 0; i < 3; ++i) a->putMessageData(m.data(), m.size()); });
        ProtocolSimple p(a);
        mustThrow("sending to a peer that is gone", nullptr, [&] { p.sendMessage(m); });
        break;
    }
    case 4: {
        int sp[2];
        addPair(sp);
        auto a = std::make_shared<DataSocket>(sp[0]);
        std::string m = bytes(r, r.below(1000)), g;
        { DataSocket b(sp[1]); b.putMessageData(m.data(), m.size()); }
        ProtocolSimple p(a);
        p.recvMessage(g);
        VH_CHECK(g == m, "socket:message-lost", firstDiff(m, g));
        p.recvMessage(g);
        VH_CHECK(g.empty(), "socket:data-from-nowhere", "a closed connection delivered " << g.size() << " bytes");
        break;
    }
    case 5: {
        std::string p = newPath();
        Server s(p);
        int t = r.chance(1, 6) ? 1 : 0;
        int64_t t0 = vh::now();
        mustThrow("accept without a client", "Timed out", [&] { s.accept(t); });
        VH_CHECK(vh::now() - t0 >= t * 1000000000LL - 20000000, "socket:accept-timeout-early", "accept(" << t << ") gave up after " << (vh::now() - t0) / 1000 << " us");
        ConnectSocket cs(p);
        VH_CHECK(!!s.accept(t), "socket:accept-null", "accept failed with a client waiting");
        unlink(p.c_str());
        vh::count("accept_timeouts");
        break;
    }
    case 6: {
        struct sigaction sa{};
        sa.sa_handler = onUsr;
        sigaction(SIGUSR1, &sa, nullptr);
        std::string p = newPath();
        Server s(p);
        std::atomic<bool> stop{false}, connected{false};
        pthread_t me = pthread_self();
        int delay = (int) r.range(2000, 60000);
        std::thread sig([&] { while (!stop) { pthread_kill(me, SIGUSR1); usleep(700); } });
        std::thread cl([&] { usleep(delay); ConnectSocket cs(p); connected = true; char b[1]; cs.getMessageData(b, 1, [](std::size_t) { return false; }); });
        try {
            auto d = s.accept(20);
        } catch (std::exception &e) {
            VH_CHECK(false, "socket:accept-interrupted", "a signal made accept give up on a client that connects in time: " << e.what());
        }
        stop = true;
        sig.join();
        cl.join();
        unlink(p.c_str());
        vh::count("accepts_under_signals");
        break;
    }
    case 7: {
        bool low = r.chance(1, 2);
        rlimit rl;
        getrlimit(RLIMIT_NOFILE, &rl);
        if (!low && rl.rlim_cur < 3000) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 3000); setrlimit(RLIMIT_NOFILE, &rl); }
        if (!low && rl.rlim_cur < 3000) return;
        int saved = -1;
        std::vector<int> fill;
        if (low) {
            saved = dup(0);
            __real_close(0);
        } else {
            for (;;) {
                int fd = ::open("/dev/null", O_RDONLY);
                if (fd < 0) break;
                fill.push_back(fd);
                if (fd >= 1024 + (int) r.below(1000)) break;
            }
        }
        std::string p = newPath();
        {
            bool serverLow = r.chance(1, 2);
            int hold = -1;
            if (low && !serverLow) hold = ::open("/dev/null", O_RDONLY); // takes 0 for now
            Server s(p);
            if (hold >= 0) __real_close(hold);
            ConnectSocket cs(p);
            auto d = s.accept(20);
            std::string m = bytes(r, 500), g;
            ProtocolSimple pd(d);
            cs.putMessageData(m.data(), m.size());
            cs.putMessageClose();
            try { pd.recvMessage(g); }
            catch (std::exception &e) { VH_CHECK(false, "socket:descriptor-number", "a valid descriptor was refused: " << e.what()); }
            VH_CHECK(g == m, "socket:message-lost", firstDiff(m, g));
            pd.sendMessage(g);
            std::string h(500, 0);
            size_t k = cs.getMessageData(&h[0], 500, [](std::size_t) { return false; });
            VH_CHECK(k == 500 && h == m, "socket:message-lost", firstDiff(m, h));
        }
        unlink(p.c_str());
        for (int fd : fill) __real_close(fd);
        if (low) { dup2(saved, 0); __real_close(saved); }
        vh::count(low ? "descriptor_zero" : "descriptor_above_1024");
        break;
    }
    case 8: {                                       // must not turn into another address
        std::string p = newPath();
        sockaddr_un un;
        size_t most = sizeof un.sun_path - 1;
        if (p.size() > most - 2) return;
        p += std::string(most - p.size(), 'n');
        size_t over = 1 + r.below(r.chance(1, 2) ? 3 : 300);
        std::string q = p + std::string(over, 'o');
        mustThrow("listening on a path that does not fit", nullptr, [&] { Server s(q); });
        VH_CHECK(access(p.c_str(), F_OK) != 0, "socket:address-truncated", "listening on a path of " << q.size() << " characters created one of " << most);
        {
            Server s(p);
            mustThrow("connecting to a path that does not fit", nullptr, [&] { ConnectSocket t(q); });
            ConnectSocket t(p);
            VH_CHECK(!!s.accept(20), "socket:accept-null", "accept failed with a client waiting");
        }
        unlink(p.c_str());
        int mult = 65536 * (r.chance(1, 2) ? 1 : (int) r.range(2, 32000)) * (r.chance(1, 2) ? 1 : -1);
        Server s(0);
        int port = portOf(s);
        mustThrow("connecting to a port that does not exist", nullptr, [&] { ConnectSocket t("127.0.0.1", port + mult); });
        mustThrow("listening on a port that does not exist", nullptr, [&] { Server t(port + 1 + mult); });
        static const int none[] = {65536, -1, 65537, 131071, -65536, INT_MAX, INT_MIN};
        int nowhere = none[r.below(7)];
        mustThrow("connecting to a port that does not exist", nullptr, [&] { ConnectSocket t("127.0.0.1", nowhere); });
        mustThrow("listening on a port that does not exist", nullptr, [&] { Server t(nowhere); });
        ConnectSocket t("127.0.0.1", port);
        VH_CHECK(!!s.accept(20), "socket:accept-null", "accept failed with a client waiting");
        vh::count("addresses_that_do_not_fit");
        break;
    }
    case 9: {                                       // reported, and the descriptor is closed exactly once
        struct K { const char *call; int err; } ks[] = {{"socket", EMFILE}, {"socket", ENOBUFS}, {"bind", EADDRINUSE}, {"bind", EACCES}, {"bind", EADDRNOTAVAIL}, {"listen", EADDRINUSE}, {"listen", EOPNOTSUPP},
                                                        {"connect", ECONNREFUSED}, {"connect", ENETUNREACH}, {"connect", EACCES}, {"accept", EMFILE}, {"accept", ECONNABORTED}, {"accept", ENOBUFS}};
        for (int n = 0; n < 4; ++n) {
            auto k = ks[r.below(13)];
            bool tcp = r.chance(1, 2);
            Faults f;
            vh::Rng rr(r.next());
            std::string p = newPath(), call = k.call;
            bool server = call == "bind" || call == "listen" || (call == "socket" && r.chance(1, 2));
            {
                std::unique_ptr<Server> s;
                if (!server) s.reset(tcp ? new Server(0) : new Server(p));
                int port = tcp && s ? portOf(*s) : 0;
                std::unique_ptr<ConnectSocket> waiting;
                if (call == "accept") waiting.reset(tcp ? new ConnectSocket("127.0.0.1", port) : new ConnectSocket(p));
                f.failCall = k.call, f.callErr = k.err;
                FaultScope fs(&f, &rr);
                mustThrow((call + " that fails").c_str(), strerror(k.err), [&] {
                    if (call == "accept") s->accept(20);
                    else if (server) { std::unique_ptr<Server> x(tcp ? new Server(0) : new Server(p)); }
                    else { std::unique_ptr<ConnectSocket> x(tcp ? new ConnectSocket("127.0.0.1", port) : new ConnectSocket(p)); }
                });
                VH_CHECK(!f.failCall, "harness:fault", call << " was not called");
                // afterwards everything works
                if (s) {
                    if (call != "accept") waiting.reset(tcp ? new ConnectSocket("127.0.0.1", port) : new ConnectSocket(p));
                    if (k.err != ECONNABORTED || call != "accept") { auto d = s->accept(20); VH_CHECK(!!d, "socket:accept-null", "accept failed with a client waiting"); }
                }
            }
            unlink(p.c_str());
            vh::count("failing_system_calls");
        }
        break;
    }
    default: {
        mustThrow("connecting to a bad address", nullptr, [&] { ConnectSocket s("not.an.address", 9); });
        mustThrow("a socket without descriptor", nullptr, [&] { DataSocket s(-1); });
        rlimit rl, old;
        getrlimit(RLIMIT_NOFILE, &old);
        int probe = dup(0);
        __real_close(probe);
        rl = old;
        rl.rlim_cur = (rlim_t) probe;
        setrlimit(RLIMIT_NOFILE, &rl);
        std::string p = newPath();
        mustThrow("no descriptors left for a server", nullptr, [&] { Server s(p); });
        mustThrow("no descriptors left for a client", nullptr, [&] { ConnectSocket s(p); });
        setrlimit(RLIMIT_NOFILE, &old);
    }
    }
    noLeak(names[kind]);
    c.mark(r.next());
    c.nontrivial = true;
}

// Servers that wait for clients: those that come in time are found, however long the wait and
// whatever signals arrive; without one the wait ends.
VH_SCENARIO(sock_late)
{
    auto &r = c.rng;
    struct sigaction sa{};
    sa.sa_handler = onUsr;
    sigaction(SIGUSR1, &sa, nullptr);
    struct Wait {
        std::unique_ptr<Server> s;
        std::string path;
        int port = 0, secs = 0, ms = -1;
        bool signals = false, served = false;
        std::string why;
        int64_t came = 0, from = 0, ended = 0;
        pthread_t id;
        std::atomic<int> state{0};
    };
    int n = (int) r.range(5, 9);
    std::vector<std::unique_ptr<Wait>> w;
    c.desc << n << " servers:";
    for (int i = 0; i < n; ++i) {
        w.emplace_back(new Wait());
        Wait &x = *w.back();
        if (r.chance(1, 3)) { x.s.reset(new Server(0)); x.port = portOf(*x.s); }
        else { x.path = newPath(); x.s.reset(new Server(x.path)); }
        x.secs = (int) r.range(1, 6);
        x.signals = r.chance(1, 2);
        if (i && r.chance(3, 4)) x.ms = x.secs > 1 && r.chance(2, 3) ? (int) r.range(x.secs * 1000 - 1800, x.secs * 1000 - 800) : (int) r.below(x.secs * 1000 - 700);
        c.desc << ' ' << x.secs << " s" << (x.signals ? ", signals" : "") << (x.ms < 0 ? ", nobody" : ", after " + std::to_string(x.ms) + " ms") << ';';
        c.mark(x.secs * 4 + x.signals * 2 + (x.ms < 0));
    }
    std::atomic<bool> quit{false};
    std::vector<std::thread> th, clients;
    for (auto &p : w) {
        Wait *x = p.get();
        x->from = vh::now();
        th.emplace_back([x] {
            x->id = pthread_self();
            x->state.store(1);
            try { x->served = !!x->s->accept(x->secs); } catch (std::exception &e) { x->why = e.what(); }
            x->ended = vh::now();
            x->state.store(2);
        });
        if (x->ms >= 0) clients.emplace_back([x] {
            std::unique_ptr<ConnectSocket> cs;
            usleep(x->ms * 1000);
            if (x->port) cs.reset(new ConnectSocket("127.0.0.1", x->port)); else cs.reset(new ConnectSocket(x->path));
            x->came = vh::now();
            while (x->state.load() != 2) usleep(1000);
        });
    }
    int64_t t0 = vh::now();
    for (bool all = false; !all;) {
        usleep((int) r.range(20000, 150000));
        all = true;
        for (auto &x : w) if (x->state.load() != 2) {
            all = false;
            if (x->signals && x->state.load() == 1) pthread_kill(x->id, SIGUSR1);
            VH_CHECK(vh::now() - t0 < (x->secs + 25) * 1000000000LL, "socket:accept-no-timeout", "accept(" << x->secs << ") did not end after " << (vh::now() - t0) / 1000000 << " ms"
                     << (x->signals ? ", with signals" : ""));
        }
        vh::progress();
    }
    for (auto &t : th) t.join();
    for (auto &t : clients) t.join();
    long late = 0;
    for (auto &x : w) {
        if (x->ms < 0) {
            VH_CHECK(!x->served && x->why.find("Timed out") != std::string::npos, "socket:no-failure", "accept(" << x->secs << ") without a client: " << (x->served ? "succeeded" : x->why));
            VH_CHECK(x->ended - x->from >= x->secs * 1000000000LL - 20000000, "socket:accept-timeout-early", "accept(" << x->secs << ") gave up after " << (x->ended - x->from) / 1000000 << " ms");
            vh::count("waits_without_a_client");
        } else if (x->came - x->from < (x->secs * 1000 - 300) * 1000000LL) {
            VH_CHECK(x->served, "socket:accept-timeout-early", "accept(" << x->secs << ") missed a client that came after " << (x->came - x->from) / 1000000 << " ms"
                     << (x->signals ? ", with signals: " : ": ") << x->why);
            ++late;
        }
        if (!x->path.empty()) unlink(x->path.c_str());
    }
    vh::count("late_clients", late);
    c.nontrivial = late > 0;
}

// Sockets used and closed by several threads: a descriptor closed twice would hit another thread's.
VH_SCENARIO(sock_churn)
{
    auto &r = c.rng;
    reset();
    int n = (int) r.range(2, 5), rounds = (int) r.range(5, 40);
    c.desc << n << " threads x " << rounds;
    c.mark(n * 1000 + rounds);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < n; ++i) seeds.push_back(r.next());
    long total = 0;
    {
        vh::WithNoise noise(c);
        std::vector<std::thread> th;
        vh::SpinStart start;
        for (int i = 0; i < n; ++i)
            th.emplace_back([&, i] {
                vh::Rng rr(seeds[i]);
                start.arrive();
                for (int j = 0; j < rounds; ++j) {
                    vh::progress();
                    int sp[2];
                    {
                        std::lock_guard<std::mutex> l(gTabM);
                        VH_CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, sp) == 0, "harness:socketpair", strerror(errno));
                        gTab.insert(sp[0]);
                        gTab.insert(sp[1]);
                    }
                    errno = rr.chance(1, 2) ? EINTR : 0;
                    DataSocket a(sp[0]), b(sp[1]);
                    std::string m = bytes(rr, 1 + rr.below(3000)), g(m.size(), 0);
                    a.putMessageData(m.data(), m.size());
                    size_t k = b.getMessageData(&g[0], g.size(), [](std::size_t) { return false; });
                    VH_CHECK(k == m.size() && g == m, "socket:foreign-data", "a private pair of sockets delivered something else: " << firstDiff(m, g.substr(0, k)));
                    errno = rr.chance(1, 2) ? EINTR : 0;
                    if (rr.chance(1, 2)) { try { a.close(); } catch (std::exception &e) { VH_CHECK(false, "socket:close-threw", e.what()); } }
                    if (rr.chance(1, 3)) { DataSocket d(std::move(b)); }
                    try { ConnectSocket x("nowhere"); VH_CHECK(false, "socket:failure-swallowed", "connected to nowhere"); } catch (std::runtime_error &) {}
                }
            });
        start.release(n);
        vh::HarnessWait w("socket churn");
        for (auto &t : th) t.join();
        total = (long) n * rounds;
    }
    noLeak("churn");
    vh::count("churned_sockets", total * 2);
    c.nontrivial = true;
}
