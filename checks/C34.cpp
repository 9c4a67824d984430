// C34: the server program applies its settings, and ends in good order when it is told to.
// BUILD: repo=hzip_network/*,hzip_codec/*,hzip_core/*,hzip_storage/* mode=plain libs=crypto,png,loguru extra=sched,fakecl
#include "api_model.h"
#include <fcntl.h>
#include <semaphore.h>

#define main hzip_main
#include <main.cpp>
#undef main

const char *pbt::property_id = "C34";
const char *pbt::rule = "settings: every subset of the environment settings with generated values, checked by what clients can do; refused: settings that are no numbers, ports in use; "
                        "signals: histories of 0-12 API commands over 1-3 sessions, then one or two termination signals with the sessions open, idle or in the middle of an upload, with ignored signals in between; "
                        "busy: 1-3 clients storing and removing files without pause when the signal comes; "
                        "non-trivial: at least two settings differ from the defaults, a start was refused, or the archive holds acknowledged data when the signal comes";

static void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

void (*pbt::process_init)() = quiet;

namespace {
    struct Setup {
        std::map<std::string, std::string> env;
        bool port = true; // given
    };

    const char *const all_settings[] = {"HZIP_CACHE_FILE", "HZIP_CACHE_PAGE_SIZE", "HZIP_CACHE_COUNT", "HZIP_API_THREADS", "HZIP_API_PORT", "HZIP_API_TIMEOUT", "HZIP_API_KEY",
                                        "HZIP_PROCESSOR_THREADS", "HZIP_MAX_MEM_USAGE", "HZIP_OPENCL_KERNELS", "HZIP_OPENCL_DEVICE_REGEX"};

    // Never comes back.
    void run_main() noexcept {
        const char *argv[] = {"hybridzip", nullptr};
        hzip_main(1, argv);
    }

    Options entry(const Setup &su, const Options &base) {
        auto o = base;
        o.entry = [su](uint16_t port) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            for (auto *n: all_settings) unsetenv(n);
            for (auto &e: su.env) setenv(e.first.c_str(), e.second.c_str(), 1);
            if (su.port) setenv("HZIP_API_PORT", std::to_string(port).c_str(), 1);
            else remap_port = port;
            signal(SIGPIPE, SIG_DFL);
            run_main();
        };
        return o;
    }

    // What most cases run with.
    Setup plain(const Options &o) {
        Setup su;
        su.env = {{"HZIP_CACHE_FILE", "cache"}, {"HZIP_CACHE_PAGE_SIZE", "4096"}, {"HZIP_CACHE_COUNT", "1"}, {"HZIP_API_TIMEOUT", "0"}};
        su.env["HZIP_API_THREADS"] = std::to_string(o.instances);
        su.env["HZIP_PROCESSOR_THREADS"] = std::to_string(o.threads);
        su.env["HZIP_API_KEY"] = o.password;
        return su;
    }

    const int endings[] = {SIGTERM, SIGINT, SIGABRT, SIGFPE, SIGSEGV};

    // The archive can be read, and its lock is free and lets only one in.
    void check_lock(const std::string &path) {
        if (access(path.c_str(), F_OK) != 0) return;
        int fd[2];
        CHECK(pipe(fd) == 0, "no pipe");
        pid_t p = fork();
        CHECK(p >= 0, "no process");
        if (p == 0) {
            alarm(10);
            std::string stage = "opened", what;
            try {
                HZ_Archive a(path);
                stage = "loaded";
                a.load();
                // As long as it is open, nobody else gets it.
                pid_t q = fork();
                if (q == 0) {
                    ualarm(60000, 0);
                    HZ_Archive b(path);
                    _exit(9);
                }
                int st = 0;
                waitpid(q, &st, 0);
                a.close();
                if (WIFEXITED(st) && WEXITSTATUS(st) == 9) what = "the archive can be opened twice at once";
            } catch (const std::exception &e) { what = "the archive cannot be " + stage + ": " + e.what(); }
            if (write(fd[1], what.data(), what.size()) < 0) {}
            _exit(0);
        }
        close(fd[1]);
        std::string what;
        char c;
        while (read(fd[0], &c, 1) == 1) what += c;
        close(fd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        CHECK(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), "the archive is left locked");
        CHECK(!WIFSIGNALED(st), "reading the archive crashes (%s)", strsignal(WTERMSIG(st)));
        CHECK(what.empty(), "%s", what.c_str());
    }

    void check_end(Server &s, const std::vector<int> &sent) {
        std::string w;
        for (int n: sent) w += fmt("%s%s", w.empty() ? "" : ", ", strsignal(n));
        int st = s.ended(w.c_str());
        CHECK(!WIFSIGNALED(st), "the server is killed by %s after %s", strsignal(WTERMSIG(st)), w.c_str());
        bool one = false;
        for (int n: sent) one |= WEXITSTATUS(st) == n;
        CHECK(one, "the server ends with status %d after %s", WEXITSTATUS(st), w.c_str());
    }
}

static void settings(G &g) {
    Setup su;
    Options o;
    unsigned set = 0;
    auto give = [&](const char *n, const std::string &v) {
        su.env[n] = v;
        set++;
        g.note("%s=%s ", n, v.c_str());
    };
    o.instances = 1;
    if (g.chance(70)) give("HZIP_API_THREADS", std::to_string(o.instances = (unsigned) g.range(1, 5)));
    su.port = g.chance(80);
    if (g.chance(60)) give("HZIP_API_KEY", o.password = g.ascii(g.range(1, 20), "abcXYZ09 -/=$\\"));
    if (g.chance(60)) give("HZIP_PROCESSOR_THREADS", std::to_string(g.range(1, 4)));
    uint64_t peak = 1073741824;
    if (g.chance(60)) give("HZIP_MAX_MEM_USAGE", std::to_string(peak = (1ull << 28) + g.u64(~0ull - (1ull << 28))));
    bool cache = g.chance(70);
    if (cache) give("HZIP_CACHE_FILE", "cache." + g.ascii(g.range(0, 5), "ab"));
    if (g.chance(60)) give("HZIP_CACHE_PAGE_SIZE", std::to_string(g.pick({4096, 512, 65536})));
    if (g.chance(60)) give("HZIP_CACHE_COUNT", std::to_string(g.range(1, 6)));
    unsigned timeout = 100;
    if (g.chance(60)) give("HZIP_API_TIMEOUT", std::to_string(timeout = g.chance(12) ? 1 : (unsigned) g.pick({0, 50, 100, 100000})));
    if (g.chance(30)) give("HZIP_OPENCL_KERNELS", std::to_string(g.range(1, 100)));
    Server s(entry(su, o));
    CHECK(s.announced[0] == (su.port ? s.port : 1729), "the server listens at port %llu, not %u", (u64) s.announced[0], su.port ? s.port : 1729);
    CHECK(s.announced[1] == peak, "the memory limit is %llu, not %llu", (u64) s.announced[1], (u64) peak);
    auto archives = make_archives(g, 1);
    if (timeout != 1) {
        check_capacity(s, "at the start");
        { // A wrong key
            Wire w(s);
            uint8_t c;
            uint64_t x;
            w.recv_raw(&c, 1);
            w.recv_raw(&x, 8);
            w.recv_raw(&c, 1);
            auto other = o.password;
            other[g.below(other.size())] ^= (char) (1 << g.below(7));
            x = token_for(other, x);
            w.send_raw(&x, 8);
            auto r = w.until_closed();
            CHECK(r.empty(), "the server goes on after a wrong key");
        }
        Client c(g, s, archives);
        c.open_sessions(o.instances);
        for (unsigned i = 0; i < 4; i++) c.step();
        // One more than configured gets nothing. (The sessions may have been closed by a step.)
        while (c.v.size() < o.instances) c.v.emplace_back(s, o.password);
        for (auto &x: c.v) if (!x.open()) x = Session(s, o.password);
        if (g.chance(40)) {
            Wire w(s);
            pollfd p{w.fd, POLLIN, 0};
            CHECK(poll(&p, 1, 60) == 0, "more sessions are served than the %u configured", o.instances);
            c.close_all();
            uint8_t b;
            w.recv_raw(&b, 1);
            w.shut();
            g.label("one session too many waits");
        } else c.close_all();
        check_capacity(s, "after commands");
    } else {
        // An idle session is ended after the time configured.
        Session x(s, o.password);
        timespec t0{}, t1{};
        clock_gettime(CLOCK_MONOTONIC, &t0);
        auto r = x.w.until_closed();
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double d = (double) (t1.tv_sec - t0.tv_sec) + 1e-9 * (double) (t1.tv_nsec - t0.tv_nsec);
        CHECK(d > 0.5, "a session is ended after %.2f s instead of %u", d, timeout);
        g.label("timeout of 1 s");
    }
    s.check_alive("while it serves");
    int n = g.pick({SIGTERM, SIGINT});
    usleep(2000); // (the main thread may be busy with the last connection)
    s.send_signal(n);
    check_end(s, {n});
    for (auto &a: archives) {
        if (timeout != 1) direct(a.path, {&a});
        unlink(a.path.c_str());
    }
    if (set >= 2) g.nontrivial();
}

static void refused(G &g) {
    Options o;
    auto su = plain(o);
    if (g.boolean()) {
        static const char *const numbers[] = {"HZIP_API_THREADS", "HZIP_API_PORT", "HZIP_API_TIMEOUT", "HZIP_PROCESSOR_THREADS", "HZIP_MAX_MEM_USAGE", "HZIP_CACHE_COUNT", "HZIP_CACHE_PAGE_SIZE"};
        std::string name = numbers[g.below(7)];
        auto bad = g.pick({std::string("x"), std::string(""), std::string("one"), std::string("-"), std::string("99999999999999999999999"), std::string(" ")});
        su.env[name] = bad;
        if (name == "HZIP_API_PORT") su.port = false;
        g.note("%s='%s'", name.c_str(), bad.c_str());
        Server s(entry(su, o), false);
        CHECK(!s.start_at((uint16_t) (40000 + g.below(1000))), "the server starts with %s='%s'", name.c_str(), bad.c_str());
        int st = s.ended("settings that cannot be read");
        CHECK(WIFSIGNALED(st) || WEXITSTATUS(st) != 0, "the server ends as if all was well with %s='%s'", name.c_str(), bad.c_str());
    } else {
        auto archives = make_archives(g, 1);
        Server s(entry(su, o));
        Client c(g, s, archives);
        c.open_sessions(o.instances);
        for (unsigned i = 0; i < 4; i++) c.step();
        g.note("a second server at the port");
        exact_ports = true; // (inherited)
        Server t(entry(su, o), false);
        bool up = t.start_at(s.port);
        exact_ports = false;
        CHECK(!up, "a second server listens at the same port");
        int st = t.ended("finding its port in use");
        CHECK(WIFSIGNALED(st) || WEXITSTATUS(st) != 0, "a server that cannot listen ends as if all was well");
        s.check_alive("when another one was started");
        c.all();
        c.close_all();
        usleep(2000);
        s.send_signal(SIGTERM);
        check_end(s, {SIGTERM});
        direct(archives[0].path, {&archives[0]});
        unlink(archives[0].path.c_str());
    }
    g.nontrivial();
}

// Sends part of an encode command; the server waits for the rest.
static void half_upload(G &g, Session &x, const Arch &a) {
    Session::EncodeArgs e;
    e.archive = {a.path};
    e.dest = {g.boolean() ? "/zz/unfinished" : "/zz"};
    e.alg = {1};
    x.w.keep = true;
    x.cut_after = x.sent + 3 + g.below(3000);
    try { x.encode(g, e, Bytes(3000, 7)); }
    catch (const Gone &) {}
    catch (const Refused &) {}
}

static void signals(G &g) {
    auto o = options(g, 3);
    auto archives = make_archives(g, (unsigned) g.range(1, 2));
    auto su = plain(o);
    Server s(entry(su, o));
    Client c(g, s, archives);
    c.open_sessions(o.instances);
    unsigned lives = (unsigned) g.range(1, 2);
    for (unsigned life = 0; life < lives; life++) {
        unsigned n = (unsigned) g.range(0, 12);
        for (unsigned i = 0; i < n; i++) {
            if (g.chance(8)) {
                g.note("SIGPIPE; ");
                s.send_signal(SIGPIPE);
                g.label("ignored signal");
            }
            c.step();
        }
        bool holds = false;
        for (auto &a: archives) holds |= !a.files.m.empty() || !a.states.m.empty();
        if (holds) g.nontrivial();
        auto how = g.weighted({40, 30, 30});
        if (how == 1) {
            c.close_all();
            g.note("sessions closed; ");
        } else if (how == 2) {
            for (auto &x: c.v) if (x.open() && g.chance(70)) half_upload(g, x, archives[g.below(archives.size())]);
            g.note("uploads begun; ");
            g.label("in the middle of an upload");
        }
        usleep(2000); // (the main thread may be busy with the last connection)
        std::vector<int> sent{endings[g.below(5)]};
        s.send_signal(sent[0]);
        if (g.chance(25)) {
            int m = endings[g.below(5)];
            usleep((unsigned) g.below(3) * 20);
            sent.push_back(m);
            try { s.send_signal(m); } catch (const Failure &) {}
            g.label("a second signal");
        }
        g.note("%s; ", strsignal(sent[0]));
        check_end(s, sent);
        c.v.clear();
        c.loose.clear();
        for (auto &a: archives) {
            check_lock(a.path);
            if (how != 2) direct(a.path, {&a});
        }
        s.start();
        c.serial++;
        c.open_sessions(o.instances);
        c.all();
    }
    c.close_all();
    usleep(2000);
    s.send_signal(SIGTERM);
    check_end(s, {SIGTERM});
    for (auto &a: archives) unlink(a.path.c_str());
}

static void busy(G &g) {
    Options o;
    o.instances = (unsigned) g.range(1, 3);
    o.threads = (unsigned) g.range(1, 3);
    bool many = g.chance(40); // new archives are opened all the time
    auto archives = make_archives(g, many ? 60 : (unsigned) g.range(1, 3));
    Server s(entry(plain(o), o));
    struct T {
        G g;
        std::map<std::pair<size_t, std::string>, Bytes> there, maybe; // archive and name
        std::set<std::pair<size_t, std::string>> gone;
        std::string failed;
        Session x;
        std::thread t;
    };
    std::list<T> v;
    uint64_t wait = g.below(15000);
    int n = endings[g.below(5)];
    g.note("%u clients, %zu archives, %s after %llu us", o.instances, archives.size(), strsignal(n), (u64) wait);
    for (unsigned i = 0; i < o.instances; i++) {
        auto &t = v.emplace_back();
        t.g.rng = g.sub();
        t.x = Session(s, o.password);
    }
    usleep(2000);
    unsigned i = 0;
    for (auto &t: v) {
        t.t = std::thread([&t, &archives, i] {
            try {
                for (unsigned k = 0; k < 100000; k++) {
                    if (!t.there.empty() && t.g.chance(30)) {
                        auto p = std::next(t.there.begin(), (long) t.g.below(t.there.size()));
                        auto key = p->first;
                        t.maybe[key] = p->second;
                        t.there.erase(p);
                        t.x.remove(false, {archives[key.first].path}, {key.second});
                        t.maybe.erase(key);
                        t.gone.insert(key);
                    } else {
                        Session::EncodeArgs e;
                        auto key = std::make_pair((size_t) t.g.below(archives.size()), fmt("/t%u/%u", i, k));
                        e.archive = {archives[key.first].path};
                        e.dest = {key.second};
                        e.alg = {1};
                        auto d = t.g.data(t.g.chance(10) ? 5000 : 60);
                        t.maybe[key] = d;
                        t.x.encode(t.g, e, d);
                        t.there[key] = d;
                        t.maybe.erase(key);
                    }
                }
            } catch (const Gone &) {}
            catch (const Refused &r) {
                // (When the shutdown has begun, commands can be refused.)
            } catch (const Failure &f) { t.failed = f.msg; }
        });
        i++;
    }
    usleep((unsigned) wait);
    s.send_signal(n);
    std::string bad;
    try { check_end(s, {n}); }
    catch (const Failure &f) { bad = f.msg; }
    s.finish();
    for (auto &t: v) t.t.join();
    CHECK(bad.empty(), "%s", bad.c_str());
    for (auto &t: v) CHECK(t.failed.empty(), "%s", t.failed.c_str());
    for (auto &t: v) t.x = Session();
    for (auto &a: archives) check_lock(a.path);
    s.start();
    Session x(s, o.password);
    size_t held = 0;
    for (auto &t: v) {
        for (auto &e: t.there) {
            std::string why;
            Bytes r;
            int k = outcome([&] { r = x.decode(g, {archives[e.first.first].path}, {e.first.second}, true); }, &why);
            CHECK(k == 0, "%s, whose storing was acknowledged before the shutdown, is lost (%s)", e.first.second.c_str(), why.c_str());
            Client::same(r, e.second, e.first.second);
            held++;
        }
        for (auto &e: t.maybe) {
            Bytes r;
            if (outcome([&] { r = x.decode(g, {archives[e.first.first].path}, {e.first.second}, true); }) == 0) {
                Client::same(r, e.second, e.first.second);
                g.label("interrupted command took effect");
            } else g.label("interrupted command had no effect");
        }
        for (auto &e: t.gone) CHECK(!x.file_exists({archives[e.first].path}, {e.second}, true), "%s, whose removal was acknowledged before the shutdown, is back", e.second.c_str());
    }
    x.close_session();
    usleep(2000);
    s.send_signal(SIGTERM);
    check_end(s, {SIGTERM});
    for (auto &a: archives) unlink(a.path.c_str());
    if (held) g.nontrivial();
}

std::vector<Prop> pbt::properties() {
    return {{"settings", settings, 200, 4000, REALTIME, 120},
            {"refused", refused, 60, 1000, REALTIME, 120},
            {"signals", signals, 200, 6000, REALTIME, 120},
            {"busy", busy, 300, 8000, REALTIME, 120}};
}
