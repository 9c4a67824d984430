// A server in a child process and a client for its protocol, shared by C22-C24.
#ifndef API_CLIENT_H
#define API_CLIENT_H

#include "archive_model.h"
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <poll.h>
#include <random>
#include <thread>
#include <unistd.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_network/api/api.h>
#include <hzip_network/api/api_enums.h>
#include <loguru/loguru.hpp>

namespace api {
    using namespace pbt;
    using am::Bytes;
    // An answer that takes longer does not come.
    inline unsigned patience() { return pbt::phase == 0 ? 20 : pbt::phase == 1 ? 12 : 4; }
    inline int announce_fd = -1;
    inline bool exact_ports = false; // ports in use stay refused
    inline uint16_t remap_port = 0; // taken instead of the default one
    inline uint64_t asked_port = 0;

    // What the device of randomness gives, if not 0: challenges and identifiers come again when a case is repeated.
    inline std::atomic<uint64_t> random_seed{0}, random_next{0};

    // An error reply.
    struct Refused {
        std::string msg;
    };

    // The connection ended.
    struct Gone {
        std::string why;
    };

    struct Options {
        unsigned instances = 2, threads = 2, timeout_s = 0;
        uint64_t random = 0; // (see random_seed)
        uint64_t largest = 0; // memory a single request may ask for
        std::string password = "hybridzip";
        std::function<void(uint16_t)> entry; // runs a server in the child, instead of one made here (C34)
    };

    class Server {
        pid_t pid = -1;
        int ctl = -1;
        uint64_t starts = 0;

    public:
        uint16_t port = 0;
        uint64_t announced[2] = {}; // port and memory limit, told by the process when it listens
        Options o;

        explicit Server(const Options &o, bool now = true) : o(o) { if (now) start(); }

        Server(const Server &) = delete;

        void start() {
            static uint64_t next = 0;
            for (int tries = 0; tries < 200; tries++) {
                if (start_at((uint16_t) (2000 + mix((uint64_t) getpid(), next++) % 30000))) return;
                finish();
            }
            fail("the server does not start");
        }

        // false: it ends (or goes on) without listening.
        bool start_at(uint16_t at) {
            port = at;
            starts++;
            int p[2];
            CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p) == 0, "no control channel");
            pid = fork();
            CHECK(pid >= 0, "no process");
            if (pid == 0) {
                close(p[0]);
                child(p[1]);
            }
            close(p[1]);
            ctl = p[0];
            char c = 0;
            return read(ctl, &c, 1) == 1 && c == 'L' && read(ctl, announced, sizeof(announced)) == sizeof(announced);
        }

        [[noreturn]] void child(int fd) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() == 1) _exit(3);
            signal(SIGPIPE, SIG_DFL);
            loguru::g_stderr_verbosity = loguru::Verbosity_OFF;
#ifndef STANDIN_ASAN
            rlimit as{6ull << 30, 6ull << 30};
            setrlimit(RLIMIT_AS, &as);
#endif
            announce_fd = fd;
            random_next = 0;
            random_seed = o.random ? mix(o.random, starts) | 1 : 0;
            if (o.largest) rainman::standin::largest() = o.largest;
            if (o.entry) {
                o.entry(port);
                _exit(43);
            }
            hzruntime::CacheProvider::init_cache("cache", 1, 4096);
            hzruntime::Config::opencl_support_enabled = false;
            auto *a = new hzapi::Api(o.instances);
            a->process(o.threads)->protect(o.password);
            if (o.timeout_s) a->timeout(timeval{(time_t) o.timeout_s, 0});
            std::thread([a, this] {
                try { a->start("127.0.0.1", port); }
                catch (...) {}
                _exit(42);
            }).detach();
            char c = 0;
            if (read(fd, &c, 1) == 1 && c == 'q') {
                // The accept loop goes on after the shutdown; it must not be mistaken for activity.
                a->shutdown();
                _exit(0);
            }
            _exit(4);
        }

        // Ends the child; its wait status.
        int finish() {
            int st = 0;
            if (pid > 0) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                pid = -1;
            }
            if (ctl >= 0) close(ctl);
            ctl = -1;
            return st;
        }

        void check_alive(const char *after) {
            int st;
            if (pid > 0 && waitpid(pid, &st, WNOHANG) == pid) {
                pid = -1;
                fail("the server process ended (%s %d) %s", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), after);
            }
        }

        // Closes the archives and ends the process.
        void stop() {
            check_alive("before it was told to");
            CHECK(write(ctl, "q", 1) == 1, "the server process cannot be told to stop");
            int st = 0;
            for (unsigned i = 0; i < patience() * 200; i++) {
                if (waitpid(pid, &st, WNOHANG) == pid) {
                    pid = -1;
                    close(ctl);
                    ctl = -1;
                    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the server process ended with %s %d on shutdown", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
                    return;
                }
                usleep(i < 20 ? 200 : 5000);
            }
            fail("the server does not shut down");
        }

        void send_signal(int n) { CHECK(kill(pid, n) == 0, "the server process is gone"); }

        // Waits for the process to end by itself; its wait status.
        int ended(const char *after) {
            int st = 0;
            for (unsigned i = 0; i < patience() * 200; i++) {
                if (waitpid(pid, &st, WNOHANG) == pid) {
                    pid = -1;
                    if (ctl >= 0) close(ctl);
                    ctl = -1;
                    return st;
                }
                usleep(i < 20 ? 200 : 5000);
            }
            fail("the server process does not end after %s", after);
        }

        ~Server() { finish(); }
    };

    // A raw connection.
    class Wire {
    public:
        int fd = -1;
        bool impatient = false; // no answer within a short time: the session is given up
        uint64_t recv_left = ~0ull; // bytes received until the connection is given up
        bool cut_reset = false;

        void hurry(unsigned ms) {
            impatient = true;
            timeval tv{0, (suseconds_t) ms * 1000};
            setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
            setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
        }

        bool keep = false; // ... or left as it is

        [[noreturn]] void give_up(const char *why) {
            if (!keep) cut_reset ? reset() : shut();
            throw Gone{why};
        }

        Wire() = default;

        explicit Wire(const Server &s) {
            fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(s.port);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            timeval tv{(time_t) patience(), 0};
            setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
            setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
            int one = 1;
            setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
            if (connect(fd, (sockaddr *) &a, sizeof(a)) != 0) {
                shut();
                throw Gone{"connection refused"};
            }
        }

        Wire(Wire &&o) noexcept: fd(o.fd), impatient(o.impatient), recv_left(o.recv_left), cut_reset(o.cut_reset), keep(o.keep) { o.fd = -1; }

        Wire &operator=(Wire &&o) noexcept {
            std::swap(fd, o.fd);
            impatient = o.impatient;
            recv_left = o.recv_left;
            cut_reset = o.cut_reset;
            keep = o.keep;
            return *this;
        }

        ~Wire() { shut(); }

        void shut() {
            if (fd >= 0) close(fd);
            fd = -1;
        }

        void reset() {
            linger lg{1, 0};
            if (fd >= 0) setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
            shut();
        }

        // Bytes read until the server has closed the connection.
        Bytes until_closed() {
            Bytes r;
            uint8_t b[4096];
            while (true) {
                ssize_t k = recv(fd, b, sizeof(b), 0);
                if (k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) fail("the server keeps a connection open that it has to end (or never ends it)");
                if (k <= 0) return r;
                r.insert(r.end(), b, b + k);
                if (r.size() > (1u << 26)) fail("the server sends without end");
            }
        }

        void send_raw(const void *p, size_t n) {
            auto *q = (const uint8_t *) p;
            while (n > 0) {
                ssize_t k = send(fd, q, n, MSG_NOSIGNAL);
                if (k < 0 && errno == EINTR) continue;
                if (k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK) && impatient) give_up("not taken");
                if (k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) fail("the server does not take the data it asked for");
                if (k <= 0) throw Gone{"closed while sending"};
                q += k;
                n -= (size_t) k;
            }
        }

        void recv_raw(void *p, size_t n) {
            auto *q = (uint8_t *) p;
            int one = 1;
            bool cut = n > recv_left;
            if (cut) n = recv_left;
            recv_left -= n;
            while (n > 0) {
                setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof(one)); // (the server sends in small portions)
                ssize_t k = recv(fd, q, n, 0);
                if (k < 0 && errno == EINTR) continue;
                if (k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK) && impatient) give_up("no answer");
                if (k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) fail("the server does not answer");
                if (k <= 0) throw Gone{"closed while receiving"};
                q += k;
                n -= (size_t) k;
            }
            if (cut) give_up("given up by the client");
        }
    };

    struct Parts { // of a blob
        uint64_t alg = 0;
        Bytes state, header, data;
    };

    inline uint64_t token_for(const std::string &pw, uint64_t x) {
        for (size_t i = 0; i < pw.size(); i++) x ^= (uint64_t) (uint8_t) pw[i] << (8 * (i % 8));
        return x;
    }

    class Session {
    public:
        Wire w;
        uint64_t cut_after = ~0ull; // bytes sent until the connection is given up (C24)
        uint64_t sent = 0;
        std::function<Bytes(Bytes)> tamper; // replaces what is sent (C24)

        Session() = default;

        Session(Session &&) = default;

        Session &operator=(Session &&) = default;

        // Connects and opens a session.
        Session(const Server &s, const std::string &pw) : w(s) {
            uint64_t t = token_for(pw, get_u64());
            put(&t, 8);
            success();
        }

        bool open() const { return w.fd >= 0; }

        // 0 means go on, 0xff an error message.
        void ctl() {
            uint8_t c;
            w.recv_raw(&c, 1);
            if (c == 0) return;
            CHECK(c == 0xff, "the server sends %02x where a control word is due", c);
            uint16_t len;
            w.recv_raw(&len, 2);
            std::string m(len, 0);
            w.recv_raw(m.data(), len);
            throw Refused{m};
        }

        void raw(const void *p, size_t n) {
            if (sent + n > cut_after) {
                size_t k = (size_t) (cut_after - sent);
                if (k) w.send_raw(p, k);
                sent = cut_after;
                w.give_up("given up by the client");
            }
            sent += n;
            w.send_raw(p, n);
        }

        void put(const void *p, size_t n) {
            ctl();
            if (tamper) {
                auto b = tamper(Bytes((const uint8_t *) p, (const uint8_t *) p + n));
                raw(b.data(), b.size());
            } else raw(p, n);
        }

        void word(uint8_t c) { put(&c, 1); }

        void u64(uint64_t x) { put(&x, 8); }

        void str(const std::string &s) {
            uint16_t n = (uint16_t) s.size();
            put(&n, 2);
            put(s.data(), n);
        }

        void str(uint8_t c, const std::string &s) {
            word(c);
            str(s);
        }

        Bytes get(uint64_t n) {
            ctl();
            CHECK(n < (1ull << 27), "the server announces %llu bytes", (unsigned long long) n);
            Bytes b(n);
            w.recv_raw(b.data(), n);
            return b;
        }

        template<typename T>
        T get_int() {
            ctl();
            T x;
            w.recv_raw(&x, sizeof(x));
            return x;
        }

        uint64_t get_u64() { return get_int<uint64_t>(); }

        std::string success() {
            auto n = get_int<uint16_t>();
            auto b = get(n);
            return {b.begin(), b.end()};
        }

        // ---- commands ------------------------------------------------------------------------------------
        struct EncodeArgs {
            std::vector<std::string> archive, dest, state; // empty: not given; more than one: repeated, the last counts
            std::vector<uint64_t> alg;
            bool piggyback = false;
        };

        // Sends the options in a generated order.
        void options(G &g, const EncodeArgs &a, bool train = false) {
            std::vector<std::function<void()>> v;
            auto add = [&](const std::vector<std::string> &l, uint8_t c) {
                if (l.empty()) return;
                v.push_back([this, &l, c] { for (auto &s: l) str(c, s); });
            };
            add(a.archive, hzapi::ENCODE_CTL_ARCHIVE);
            add(a.dest, hzapi::ENCODE_CTL_DEST);
            add(a.state, hzapi::ENCODE_CTL_MSTATE_ADDR);
            if (!a.alg.empty())
                v.push_back([&] {
                    for (auto x: a.alg) {
                        word(hzapi::ENCODE_CTL_ALGORITHM);
                        u64(x);
                    }
                });
            if (a.piggyback) v.push_back([&] { word(hzapi::ENCODE_CTL_PIGGYBACK); });
            while (!v.empty()) {
                size_t k = g.below(v.size());
                v[k]();
                v.erase(v.begin() + (long) k);
            }
        }

        // The blobs (with piggy-back).
        std::vector<Parts> encode(G &g, const EncodeArgs &a, const Bytes &data) {
            word(hzapi::API_CTL_STREAM);
            word(hzapi::STREAM_CTL_ENCODE);
            options(g, a);
            word(hzapi::ENCODE_CTL_STREAM);
            u64(data.size());
            ctl();
            std::vector<Parts> parts;
            std::thread sender;
            std::string bad;
            // Large data is sent while replies come in.
            if (data.size() > 100000)
                sender = std::thread([&] {
                    try { raw(data.data(), data.size()); }
                    catch (const Failure &f) { bad = f.msg; }
                    catch (const Gone &) {}
                });
            else raw(data.data(), data.size());
            struct Join {
                std::thread &t;
                ~Join() { if (t.joinable()) t.join(); }
            } join{sender};
            if (a.piggyback) {
                uint64_t left = data.size(), bs = !a.alg.empty() && a.alg.back() == 1 ? 0x400000 : ~0ull;
                while (left > 0) {
                    Parts p;
                    p.alg = get_u64();
                    p.state = get(get_u64());
                    p.header = get(get_u64());
                    p.data = get(get_u64());
                    parts.push_back(p);
                    left -= std::min(left, bs);
                }
            }
            success();
            if (sender.joinable()) sender.join();
            CHECK(bad.empty(), "%s", bad.c_str());
            return parts;
        }

        void train(G &g, const EncodeArgs &a, const Bytes &data) {
            word(hzapi::API_CTL_STREAM);
            word(hzapi::STREAM_CTL_ENCODE);
            options(g, a);
            word(hzapi::ENCODE_CTL_TRAIN);
            u64(data.size());
            ctl();
            raw(data.data(), data.size());
            success();
        }

        Bytes decode(G &g, const std::vector<std::string> &archive, const std::vector<std::string> &src, bool piggyback) {
            word(hzapi::API_CTL_STREAM);
            word(hzapi::STREAM_CTL_DECODE);
            if (piggyback && g.boolean()) {
                word(hzapi::DECODE_CTL_PIGGYBACK);
                piggyback = false;
            }
            bool first = g.boolean();
            if (first) for (auto &s: src) str(hzapi::DECODE_CTL_SRC, s);
            for (auto &s: archive) str(hzapi::DECODE_CTL_ARCHIVE, s);
            if (!first) for (auto &s: src) str(hzapi::DECODE_CTL_SRC, s);
            if (piggyback) word(hzapi::DECODE_CTL_PIGGYBACK);
            word(hzapi::DECODE_CTL_STREAM);
            Bytes all;
            auto n = get_u64();
            CHECK(n < 1000, "a file of %llu blobs", (unsigned long long) n);
            for (uint64_t i = 0; i < n; i++) {
                auto b = get(get_u64());
                all.insert(all.end(), b.begin(), b.end());
            }
            success();
            return all;
        }

        // archive/state: by address; otherwise the blob's own state is sent.
        Bytes decode_blob(G &g, const Parts &p, uint64_t o_size, const std::string &archive, const std::string &state) {
            word(hzapi::API_CTL_STREAM);
            word(hzapi::STREAM_CTL_DECODE);
            bool late = g.boolean();
            if (!late) {
                word(hzapi::DECODE_CTL_ALGORITHM);
                u64(p.alg);
            }
            word(hzapi::DECODE_CTL_PIGGYBACK);
            if (!state.empty()) {
                str(hzapi::DECODE_CTL_ARCHIVE, archive);
                str(hzapi::DECODE_CTL_MSTATE_ADDR, state);
            } else {
                word(hzapi::DECODE_CTL_MSTATE_STREAM);
                u64(p.state.size());
                put(p.state.data(), p.state.size());
            }
            if (late) {
                word(hzapi::DECODE_CTL_ALGORITHM);
                u64(p.alg);
            }
            word(hzapi::DECODE_CTL_BLOB_STREAM);
            u64(p.header.size());
            put(p.header.data(), p.header.size());
            u64(p.data.size());
            put(p.data.data(), p.data.size());
            u64(o_size);
            auto r = get(get_u64());
            success();
            return r;
        }

        void write_state(const std::vector<std::string> &archive, const std::vector<std::string> &name, uint64_t alg, const Bytes &data) {
            word(hzapi::API_CTL_STREAM);
            word(hzapi::STREAM_CTL_WRITE_MSTATE);
            for (auto &s: archive) str(hzapi::MSTATE_CTL_ARCHIVE, s);
            for (auto &s: name) str(hzapi::MSTATE_CTL_ADDR, s);
            word(hzapi::MSTATE_CTL_STREAM);
            u64(alg);
            u64(data.size());
            put(data.data(), data.size());
            success();
        }

        std::pair<uint64_t, Bytes> read_state(const std::vector<std::string> &archive, const std::vector<std::string> &name, bool piggyback) {
            word(hzapi::API_CTL_STREAM);
            word(hzapi::STREAM_CTL_READ_MSTATE);
            for (auto &s: name) str(hzapi::MSTATE_CTL_ADDR, s);
            for (auto &s: archive) str(hzapi::MSTATE_CTL_ARCHIVE, s);
            if (piggyback) word(hzapi::MSTATE_CTL_PIGGYBACK);
            word(hzapi::MSTATE_CTL_STREAM);
            auto alg = get_u64();
            auto d = get(get_u64());
            success();
            return {alg, d};
        }

        void query(uint8_t what, const std::vector<std::string> &archive, const std::vector<std::string> &target, bool piggyback) {
            word(hzapi::API_CTL_QUERY);
            if (piggyback) word(hzapi::QUERY_CTL_PIGGYBACK);
            for (auto &s: archive) str(hzapi::QUERY_CTL_ARCHIVE, s);
            for (auto &s: target) str(hzapi::QUERY_CTL_TARGET, s);
            word(what);
        }

        bool file_exists(const std::vector<std::string> &archive, const std::vector<std::string> &target, bool piggyback) {
            query(hzapi::QUERY_CTL_CHECK_IF_FILE_EXISTS, archive, target, piggyback);
            auto r = get_int<uint8_t>();
            CHECK(r < 2, "the server answers %d to an existence query", r);
            return r;
        }

        std::map<std::string, bool> list(bool states, const std::vector<std::string> &archive, const std::vector<std::string> &target, bool piggyback) {
            query(states ? hzapi::QUERY_CTL_LIST_MSTATE_SYSTEM : hzapi::QUERY_CTL_LIST_FILE_SYSTEM, archive, target, piggyback);
            std::map<std::string, bool> r;
            auto n = get_u64();
            CHECK(n < 100000, "a listing of %llu entries", (unsigned long long) n);
            for (uint64_t i = 0; i < n; i++) {
                auto b = get(get_int<uint16_t>());
                std::string name(b.begin(), b.end());
                CHECK(!r.count(name), "a listing names %s twice", am::show(name).c_str());
                auto leaf = get_int<uint8_t>();
                CHECK(leaf < 2, "the server answers %d for the kind of an entry", leaf);
                r[name] = leaf;
            }
            return r;
        }

        // Success is not announced, the next command word is taken.
        void remove(bool state, const std::vector<std::string> &archive, const std::vector<std::string> &target) {
            query(state ? hzapi::QUERY_CTL_DELETE_MSTATE : hzapi::QUERY_CTL_DELETE_FILE, archive, target, false);
            health();
        }

        uint64_t mem_usage() {
            word(hzapi::API_CTL_QUERY);
            word(hzapi::QUERY_CTL_GET_MEM_USAGE);
            return get_u64();
        }

        void health() {
            word(hzapi::API_CTL_HEALTH_CHECK);
            auto m = success();
            CHECK(!m.empty(), "an empty answer to a health check");
        }

        // Ends the session; the server has to close the connection.
        void close_session() {
            word(hzapi::API_CTL_CLOSE);
            auto r = w.until_closed();
            CHECK(r.empty(), "the server sends %zu bytes after the end of the session", r.size());
            w.shut();
        }
    };

    // As many sessions as configured can be open at once, so none was lost.
    inline void check_capacity(Server &s, const char *after) {
        std::vector<Session> v;
        for (unsigned i = 0; i < s.o.instances; i++) {
            s.check_alive(after);
            try { v.emplace_back(s, s.o.password); }
            catch (const Gone &) {
                s.check_alive(after);
                fail("a session is not accepted %s", after);
            }
            catch (const Refused &r) { fail("a session is refused %s: %s", after, r.msg.c_str()); }
            catch (const Failure &f) { fail("only %u of %u sessions can be open %s (%s)", i, s.o.instances, after, f.msg.c_str()); }
        }
        for (auto &x: v) x.health();
        for (auto &x: v) x.close_session();
    }

    // Runs f; the outcome: 0 done, 1 refused, 2 connection ended.
    template<typename F>
    int outcome(F f, std::string *why = nullptr) {
        try {
            f();
            return 0;
        } catch (const Refused &r) {
            if (why) *why = r.msg;
            return 1;
        } catch (const Gone &x) {
            if (why) *why = x.why;
            return 2;
        }
    }

    // Nothing in the file is out of reach: every blob belongs to a file, every state to a name or a blob.
    inline void check_reachable(const std::string &path) {
        am::BitReader r{am::slurp(path)};
        std::set<uint64_t> blobs, used_blobs, states, used_states;
        while (true) {
            uint64_t marker = r.read(8);
            if (marker == 0xff) break;
            uint64_t len = r.read(64), body = r.pos;
            if (marker == 1) {
                uint64_t type = r.read(8);
                if (type == 1) {
                    r.bytes(r.read(64));
                    for (uint64_t n = r.read(58); n > 0; n--) used_blobs.insert(r.read(64));
                } else if (type == 2) {
                    r.bytes(r.read(64));
                    used_states.insert(r.read(64));
                }
            } else if (marker == 2) {
                blobs.insert(r.read(64));
                r.bytes(r.read(64));
                r.read(64);
                used_states.insert(r.read(64));
            } else if (marker == 3) states.insert(r.read(64));
            else CHECK(marker == 0, "archive file: unknown marker %llu", (unsigned long long) marker);
            CHECK(len <= r.b.size() * 8 - body, "archive file: a record runs past the end");
            r.pos = body + len;
        }
        for (auto b: used_blobs) CHECK(blobs.count(b), "%s: a file refers to a blob which is not stored", path.c_str());
        for (auto s: used_states) CHECK(states.count(s), "%s: a state that is needed is not stored", path.c_str());
        for (auto b: blobs) CHECK(used_blobs.count(b), "%s: a stored blob belongs to no file", path.c_str());
        for (auto s: states) CHECK(used_states.count(s), "%s: a stored state belongs to nothing", path.c_str());
    }
}

std::random_device::result_type std::random_device::_M_getval() {
    uint32_t r = 0;
    if (api::random_seed) return (uint32_t) (pbt::mix(api::random_seed, ++api::random_next) >> 32);
    while (getrandom(&r, sizeof(r), 0) != sizeof(r)) {}
    return r;
}

// Ports used a moment ago can be used again.
extern "C" int bind(int fd, const sockaddr *a, socklen_t n) {
    static auto real = (int (*)(int, const sockaddr *, socklen_t)) dlsym(RTLD_NEXT, "bind");
    int one = 1;
    if (api::announce_fd < 0) return real(fd, a, n);
    if (!api::exact_ports) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
    sockaddr_in b{};
    memcpy(&b, a, std::min<size_t>(n, sizeof(b)));
    api::asked_port = ntohs(b.sin_port);
    if (b.sin_addr.s_addr != htonl(INADDR_LOOPBACK)) api::asked_port |= 0x10000; // (not for this machine only)
    if (api::remap_port) b.sin_port = htons(api::remap_port);
    return real(fd, (sockaddr *) &b, sizeof(b));
}

// Tells the parent as soon as the server listens.
extern "C" int listen(int fd, int n) {
    static auto real = (int (*)(int, int)) dlsym(RTLD_NEXT, "listen");
    int rc = real(fd, n);
    if (rc == 0 && api::announce_fd >= 0) {
        char m[17] = "L";
        uint64_t port = api::asked_port, peak = rainman::Allocator().peak_size();
        memcpy(m + 1, &port, 8);
        memcpy(m + 9, &peak, 8);
        if (write(api::announce_fd, m, 17) != 17) {}
        api::announce_fd = -1;
    }
    return rc;
}

#endif
