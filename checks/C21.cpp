// C21: the socket layer.
// BUILD: repo=hzip_network/api/handlers/socket_class.cpp mode=asan libs=loguru
#include <pbt/pbt.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstring>
#include <csignal>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <thread>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
#include <hzip_network/api/handlers/socket_class.h>

using namespace pbt;
const char *pbt::property_id = "C21";
const char *pbt::rule = "sequences of 1-12 sends, synchronised and raw receives, success and error messages of 0-70000 bytes over (a) a transport which splits and interrupts every transfer at generated points and "
                        "may fail at a generated byte (end of stream, reset, timeout), (b) real stream sockets (Unix, TCP) with small buffers and a peer which fragments, stalls, closes or resets; "
                        "non-trivial: a transfer was split, or failed half-way";

static void quiet() {
    loguru::g_stderr_verbosity = loguru::Verbosity_OFF;
    signal(SIGPIPE, SIG_DFL); // a vanished peer must not end the process
}

void (*pbt::process_init)() = quiet;

using Bytes = std::vector<uint8_t>;

namespace {
    struct Endpoint : hzapi::SocketInterface {
        Endpoint(int s) : SocketInterface(s, "test", 1) {}

        using SocketInterface::t_send;
        using SocketInterface::t_recv;
        using SocketInterface::t_recv_sync;
        using SocketInterface::error;
        using SocketInterface::success;
    };

    // The scripted transport behind one descriptor.
    struct Transport {
        G &g;
        int fd;
        Bytes out; // accepted from the code
        std::deque<uint8_t> in; // what the peer has sent so far
        uint64_t out_limit = ~0ull, in_limit = ~0ull; // bytes until the connection fails
        uint64_t in_total = 0;
        int in_error = 0; // errno at in_limit, 0: end of stream
        int out_error = EPIPE;
        bool split = false, failed = false;
        unsigned style; // how much is moved per call
        std::function<void()> on_out; // peer's reaction
        unsigned eintr = 0;

        explicit Transport(G &g) : g(g), style((unsigned) g.below(4)) { fd = open("/dev/null", O_RDWR); }

        ~Transport();

        size_t portion(size_t n) {
            if (n <= 1) return n;
            switch (style) {
                case 0: return n;
                case 1: return 1 + g.below(n);
                case 2: return g.chance(80) ? n : 1 + g.below(std::min<size_t>(n, 5));
                default: return std::min<size_t>(n, n > 2000 ? 1400 : 3);
            }
        }

        bool interrupted() {
            if (style == 0 || eintr > 50 || !g.chance(6)) return false;
            eintr++;
            errno = EINTR;
            return true;
        }

        ssize_t send(const void *p, size_t n, int flags) {
            if (n == 0) return 0;
            if (interrupted()) return -1;
            size_t k = portion(n);
            if (out.size() >= out_limit) {
                failed = true;
                if (out_error == EPIPE && !(flags & MSG_NOSIGNAL)) raise(SIGPIPE);
                errno = out_error;
                return -1;
            }
            k = (size_t) std::min<uint64_t>(k, out_limit - out.size());
            split |= k < n;
            out.insert(out.end(), (const uint8_t *) p, (const uint8_t *) p + k);
            if (on_out) on_out();
            return (ssize_t) k;
        }

        ssize_t recv(void *p, size_t n, int flags) {
            if (n == 0) return 0;
            if (interrupted()) return -1;
            if (in_total >= in_limit) {
                failed = true;
                if (in_error == 0) return 0;
                errno = in_error;
                return -1;
            }
            if (in.empty()) fail_now("data is awaited that the peer will not send (%llu bytes were received so far)", (unsigned long long) in_total);
            size_t k = portion(n);
            k = (size_t) std::min<uint64_t>({k, in.size(), in_limit - in_total});
            split |= k < n;
            std::copy(in.begin(), in.begin() + (long) k, (uint8_t *) p);
            if (!(flags & MSG_PEEK)) {
                in.erase(in.begin(), in.begin() + (long) k);
                in_total += k;
            }
            return (ssize_t) k;
        }
    };

    Transport *current = nullptr;

    Transport::~Transport() {
        current = nullptr;
        close(fd);
    }

    bool mine(int fd) { return current != nullptr && current->fd == fd; }

    template<typename F>
    F next(const char *name, F) { return (F) dlsym(RTLD_NEXT, name); }
}

extern "C" {
ssize_t send(int fd, const void *p, size_t n, int flags) {
    if (mine(fd)) return current->send(p, n, flags);
    static auto f = next("send", &send);
    return f(fd, p, n, flags);
}

ssize_t recv(int fd, void *p, size_t n, int flags) {
    if (mine(fd)) return current->recv(p, n, flags);
    static auto f = next("recv", &recv);
    return f(fd, p, n, flags);
}

ssize_t write(int fd, const void *p, size_t n) {
    if (mine(fd)) return current->send(p, n, 0);
    static auto f = next("write", &write);
    return f(fd, p, n);
}

ssize_t read(int fd, void *p, size_t n) {
    if (mine(fd)) return current->recv(p, n, 0);
    static auto f = next("read", &read);
    return f(fd, p, n);
}

ssize_t sendmsg(int fd, const msghdr *m, int flags) {
    if (mine(fd)) {
        for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return current->send(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags);
        return 0;
    }
    static auto f = next("sendmsg", &sendmsg);
    return f(fd, m, flags);
}

ssize_t recvmsg(int fd, msghdr *m, int flags) {
    if (mine(fd)) {
        for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return current->recv(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags);
        return 0;
    }
    static auto f = next("recvmsg", &recvmsg);
    return f(fd, m, flags);
}

ssize_t writev(int fd, const iovec *v, int n) {
    if (mine(fd)) {
        for (int i = 0; i < n; i++) if (v[i].iov_len) return current->send(v[i].iov_base, v[i].iov_len, 0);
        return 0;
    }
    static auto f = next("writev", &writev);
    return f(fd, v, n);
}

int poll(pollfd *p, nfds_t n, int timeout) {
    for (nfds_t i = 0; i < n; i++)
        if (mine(p[i].fd)) {
            p[i].revents = p[i].events;
            return 1;
        }
    static auto f = next("poll", &poll);
    return f(p, n, timeout);
}
}

namespace {
    enum Kind { SEND, RECV, RECV_RAW, SYNC, SUCCESS, ERROR };
    const char *kind_names[] = {"send", "recv", "recv-raw", "sync", "success", "error"};

    struct Op {
        Kind kind;
        Bytes data; // sent, or what the peer sends
        size_t wire; // bytes written by this operation
    };

    void put(Bytes &v, const void *p, size_t n) { v.insert(v.end(), (const uint8_t *) p, (const uint8_t *) p + n); }

    std::vector<Op> script(G &g, uint64_t max, Bytes &wire) {
        unsigned n = (unsigned) g.range(1, 12);
        std::vector<Op> ops;
        for (unsigned i = 0; i < n; i++) {
            Op o;
            o.kind = (Kind) g.weighted({30, 30, 12, 8, 10, 10});
            switch (g.weighted({40, 40, 20})) {
                case 0: o.data = g.bytes(g.pick({1u, 2u, 8u})); break;
                case 1: o.data = g.bytes(g.size(0, 200)); break;
                default: o.data = g.bytes(g.size(0, max));
            }
            if ((o.kind == SUCCESS || o.kind == ERROR) && o.data.size() > 65535) o.data.resize(65535);
            if (o.kind == SYNC) o.data.clear();
            auto before = wire.size();
            uint16_t len = (uint16_t) o.data.size(); // lengths travel in host order
            switch (o.kind) {
                case SEND:
                    wire.push_back(0);
                    put(wire, o.data.data(), o.data.size());
                    break;
                case RECV:
                case SYNC: wire.push_back(0); break;
                case RECV_RAW: break;
                case SUCCESS:
                    wire.push_back(0);
                    put(wire, &len, 2);
                    wire.push_back(0);
                    put(wire, o.data.data(), o.data.size());
                    break;
                case ERROR:
                    wire.push_back(0xff);
                    put(wire, &len, 2);
                    put(wire, o.data.data(), o.data.size());
            }
            o.wire = wire.size() - before;
            g.note("%s/%zu ", kind_names[o.kind], o.data.size());
            ops.push_back(o);
        }
        return ops;
    }

    // Performs one operation; false if it threw.
    bool perform(Endpoint &e, const Op &o, Bytes &got) {
        got.clear();
        try {
            switch (o.kind) {
                case SEND: e.t_send(o.data.data(), o.data.size()); break;
                case RECV:
                case RECV_RAW:
                    got.assign(o.data.size(), 0xa5);
                    e.t_recv(got.data(), got.size(), o.kind == RECV);
                    break;
                case SYNC: e.t_recv_sync(); break;
                case SUCCESS: e.success(std::string(o.data.begin(), o.data.end())); break;
                case ERROR: e.error(std::string(o.data.begin(), o.data.end()));
            }
            return true;
        } catch (const std::exception &) { return false; }
    }
}

static void transport(G &g) {
    Bytes wire;
    auto ops = script(g, 70000, wire);
    Transport t(g);
    current = &t;
    Endpoint e(t.fd);
    uint64_t in_all = 0;
    for (auto &o: ops) if (o.kind == RECV || o.kind == RECV_RAW) in_all += o.data.size();
    unsigned fault = (unsigned) g.weighted({60, 20, 20});
    if (fault == 1) {
        t.out_limit = g.below(wire.size() + 1);
        t.out_error = g.pick({EPIPE, ECONNRESET, EAGAIN});
        g.note("sending fails after %llu of %zu bytes (%s)", (unsigned long long) t.out_limit, wire.size(), strerror(t.out_error));
    } else if (fault == 2) {
        t.in_limit = g.below(in_all + 1);
        t.in_error = g.pick({0, ECONNRESET, EAGAIN});
        g.note("receiving fails after %llu of %llu bytes (%s)", (unsigned long long) t.in_limit, (unsigned long long) in_all, t.in_error ? strerror(t.in_error) : "end of stream");
    }
    // The peer sends a message as soon as it is told to; what follows it may already be there (the next raw message) or not.
    size_t expected = 0;
    uint64_t in_seen = 0;
    for (size_t i = 0; i < ops.size(); i++) {
        auto &o = ops[i];
        if (o.kind == RECV_RAW) t.in.insert(t.in.end(), o.data.begin(), o.data.end());
        bool queued = false;
        size_t start = expected;
        t.on_out = [&] {
            if (o.kind == RECV && !queued && t.out.size() > start) {
                queued = true;
                t.in.insert(t.in.end(), o.data.begin(), o.data.end());
            }
        };
        bool reads = o.kind == RECV || o.kind == RECV_RAW;
        bool can_send = t.out_limit >= expected + o.wire;
        bool can_recv = !reads || o.data.empty() || t.in_limit >= in_seen + o.data.size();
        Bytes got;
        bool ok = perform(e, o, got);
        expected += o.wire;
        size_t upto = (size_t) std::min<uint64_t>(expected, t.out_limit);
        CHECK(t.out.size() <= expected && std::equal(t.out.begin(), t.out.end(), wire.begin()), "operation %zu (%s): the peer receives other bytes than were sent", i, kind_names[o.kind]);
        if (can_send && can_recv) {
            CHECK(ok, "operation %zu (%s of %zu bytes) failed although the connection works", i, kind_names[o.kind], o.data.size());
            CHECK(t.out.size() == expected, "operation %zu (%s) reported success after %zu of %zu bytes", i, kind_names[o.kind], o.wire - (expected - t.out.size()), o.wire);
            if (reads) CHECK(got == o.data, "operation %zu (%s): %zu bytes were received wrongly", i, kind_names[o.kind], got.size());
            if (reads) in_seen += o.data.size();
            CHECK(t.in.empty(), "operation %zu (%s) left %zu bytes of its message unread", i, kind_names[o.kind], t.in.size());
        } else {
            if (o.kind != ERROR) CHECK(!ok, "operation %zu (%s of %zu bytes) reported success over a connection that failed (%zu bytes out, %llu in)", i, kind_names[o.kind], o.data.size(), upto, (unsigned long long) t.in_total);
            if (expected > 0 && t.failed && (t.out.size() > start || t.in_total > in_seen)) g.nontrivial();
            g.label("failed");
            break;
        }
    }
    if (t.split) {
        g.nontrivial();
        g.label("split");
    }
    if (t.eintr) g.label("interrupted");
}

static void sockets(G &g) {
    Bytes wire;
    bool tcp = g.boolean();
    g.note(tcp ? "tcp: " : "unix: ");
    auto ops = script(g, 60000, wire);
    int s[2];
    if (tcp) {
        int l = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t n = sizeof(a);
        CHECK(bind(l, (sockaddr *) &a, n) == 0 && listen(l, 1) == 0 && getsockname(l, (sockaddr *) &a, &n) == 0, "no listening socket");
        s[1] = socket(AF_INET, SOCK_STREAM, 0);
        CHECK(connect(s[1], (sockaddr *) &a, n) == 0, "no connection");
        s[0] = accept(l, nullptr, nullptr);
        close(l);
        int one = 1;
        setsockopt(s[1], IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
        setsockopt(s[0], IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    } else CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, s) == 0, "no socket pair");
    int small = 4096;
    if (g.boolean()) for (int x: s) {
        setsockopt(x, SOL_SOCKET, SO_SNDBUF, &small, sizeof(small));
        setsockopt(x, SOL_SOCKET, SO_RCVBUF, &small, sizeof(small));
    }
    // The peer follows the script with generated portions, up to a generated point.
    size_t total = 0; // wire bytes and received bytes
    for (auto &o: ops) total += o.wire + (o.kind == RECV || o.kind == RECV_RAW ? o.data.size() : 0);
    enum { NEVER, CLOSE, RESET, STALL } fault = (decltype(NEVER)) g.weighted({50, 20, 20, 10});
    size_t stop = fault == NEVER ? ~0ull : g.below(total + 1);
    timeval tv{0, 150000};
    if (fault == STALL) setsockopt(s[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv)), setsockopt(s[0], SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
    g.note(fault == NEVER ? "" : fault == CLOSE ? "peer closes after %zu of %zu" : fault == RESET ? "peer resets after %zu of %zu" : "peer stalls after %zu of %zu", stop, total);
    uint64_t style = g.below(3);
    Rng r = g.sub();
    std::string peer_error;
    std::atomic<bool> stalled{true};
    std::thread peer([&] {
        size_t moved = 0, w = 0;
        auto piece = [&](size_t n) {
            size_t k = style == 0 ? n : style == 1 ? 1 + r.below(n) : std::min<size_t>(n, 1 + r.below(3));
            if (n > 3000) k = std::max<size_t>(k, 500);
            return std::min(std::min(k, n), stop - moved);
        };
        auto finish = [&] {
            if (fault == RESET) {
                linger lg{1, 0};
                setsockopt(s[1], SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
            }
            if (fault == STALL) while (stalled) usleep(1000);
            close(s[1]);
        };
        for (auto &o: ops) {
            size_t want = o.wire;
            Bytes b(4096);
            while (want > 0) {
                if (moved >= stop) return finish();
                ssize_t k = recv(s[1], b.data(), std::min<size_t>(piece(want), b.size()), 0);
                if (k <= 0) {
                    peer_error = fmt("the peer misses %zu bytes of a %s", want, kind_names[o.kind]);
                    return finish();
                }
                if (!std::equal(b.begin(), b.begin() + k, wire.begin() + (long) w)) {
                    peer_error = fmt("the peer receives other bytes in a %s", kind_names[o.kind]);
                    return finish();
                }
                w += (size_t) k;
                want -= (size_t) k;
                moved += (size_t) k;
            }
            if (o.kind != RECV && o.kind != RECV_RAW) continue;
            size_t at = 0;
            while (at < o.data.size()) {
                if (moved >= stop) return finish();
                ssize_t k = send(s[1], o.data.data() + at, piece(o.data.size() - at), MSG_NOSIGNAL);
                if (k <= 0) {
                    peer_error = fmt("a %s of %zu bytes was given up", kind_names[o.kind], o.data.size());
                    return finish();
                }
                at += (size_t) k;
                moved += (size_t) k;
                if (style == 2 && r.below(8) == 0) usleep(50);
            }
        }
        if (moved >= stop) return finish();
        // nothing more must come
        pollfd p{s[1], POLLIN, 0};
        char c;
        if (recv(s[1], &c, 1, 0) > 0) peer_error = "the peer receives more than was sent";
        finish();
    });
    std::string why;
    bool failed = false;
    size_t through = 0;
    {
        Endpoint e(s[0]);
        for (size_t i = 0; i < ops.size() && why.empty() && !failed; i++) {
            auto &o = ops[i];
            Bytes got;
            bool reads = o.kind == RECV || o.kind == RECV_RAW;
            bool ok = perform(e, o, got);
            through += o.wire + (reads ? o.data.size() : 0);
            if (ok && reads && got != o.data) why = fmt("operation %zu (%s): %zu bytes were received wrongly", i, kind_names[o.kind], got.size());
            if (ok && reads && !o.data.empty() && through > stop) why = fmt("operation %zu (%s of %zu bytes) succeeded although the peer had sent less", i, kind_names[o.kind], o.data.size());
            if (!ok && fault == NEVER) why = fmt("operation %zu (%s of %zu bytes) failed although the connection works", i, kind_names[o.kind], o.data.size());
            failed = !ok;
        }
    }
    stalled = false;
    shutdown(s[0], SHUT_WR);
    peer.join();
    close(s[0]);
    CHECK(why.empty(), "%s", why.c_str());
    if (!failed) CHECK(peer_error.empty(), "%s", peer_error.c_str());
    CHECK(peer_error.find("other bytes") == std::string::npos, "%s", peer_error.c_str());
    if (style != 0 || failed) g.nontrivial();
    g.label(fault == NEVER ? "connection kept" : fault == CLOSE ? "closed by the peer" : fault == RESET ? "reset by the peer" : "timed out");
}

std::vector<Prop> pbt::properties() {
    return {{"transport", transport, 8000, 400000},
            {"sockets", sockets, 1500, 40000, REALTIME, 30}};
}
