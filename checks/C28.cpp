// C28: runtime configuration and cache provider.
// BUILD: repo=hzip_core/opencl/*.cpp,hzip_core/runtime/*.cpp extra=fakecl mode=asan libs=loguru
#include <pbt/pbt.h>
#include <regex>
#include <thread>
#include <algorithm>
#include <cstdlib>
#include <fakecl/fakecl.h>
#include <hzip_core/opencl/cl_helper.h>
#include <hzip_core/runtime/runtime.h>
#include <loguru/loguru.hpp>

using namespace pbt;
using namespace hzruntime;
const char *pbt::property_id = "C28";
const char *pbt::rule = "every subset of the 11 environment settings with generated values (numbers up to their type's maximum, odd spellings, text that is no number, arbitrary "
                        "passwords, file names and device patterns) on hosts with 0-4 devices, configured once or several times in a row; cache histories of up to 8 "
                        "initialisations with 1-40 caches and up to 200 requests from 1-4 threads; non-trivial: at least three settings present, or two or more caches requested";

using u64 = unsigned long long;

namespace {
    void quiet() { loguru::g_stderr_verbosity = loguru::Verbosity_OFF; }

    struct Expect {
        uint64_t api_threads = 1, api_port = 1729, api_timeout = 100, processor_threads = 1, memory = 1073741824, kernels = 32;
        uint64_t cache_count = 4, cache_page = 131072;
        std::string key = "hybridzip", regex, cache_file = "hzip";
    };

    // The state a new process starts with.
    void pristine() {
        Expect e;
        Config::api_threads = e.api_threads;
        Config::api_port = e.api_port;
        Config::api_timeout = e.api_timeout;
        Config::api_key = e.key;
        Config::processor_threads = e.processor_threads;
        Config::host_max_memory = e.memory;
        Config::opencl_kernels = e.kernels;
        Config::opencl_device_regex = "";
        Config::opencl_support_enabled = false;
        for (const char *v: {"HZIP_CACHE_FILE", "HZIP_CACHE_PAGE_SIZE", "HZIP_CACHE_COUNT", "HZIP_API_THREADS", "HZIP_API_PORT", "HZIP_API_TIMEOUT", "HZIP_API_KEY",
                             "HZIP_PROCESSOR_THREADS", "HZIP_MAX_MEM_USAGE", "HZIP_OPENCL_KERNELS", "HZIP_OPENCL_DEVICE_REGEX"})
            unsetenv(v);
    }

    std::string spell(G &g, uint64_t v) {
        std::string s = std::to_string(v);
        switch (g.weighted({8, 1, 1})) {
            case 1:
                return "000" + s;
            case 2:
                return " " + s;
            default:
                return s;
        }
    }

    std::string text(G &g, uint64_t max) {
        auto b = g.bytes(g.size(0, max));
        std::string s(b.begin(), b.end());
        for (auto &c: s) if (c == 0) c = 'z';
        return s;
    }

    void check_caches(const std::string &file, uint64_t count, uint64_t page, uint64_t requests) {
        // The first cache served decides the phase; after that strictly in turn, each with its own lock.
        std::map<std::string, std::mutex *> locks;
        std::vector<std::string> order;
        for (uint64_t i = 0; i < requests; i++) {
            auto [c, m] = CacheProvider::get_cache();
            std::string n = c.standin_filename;
            CHECK(c.standin_page_size == page, "a cache has pages of %llu bytes, not %llu", (u64) c.standin_page_size, (u64) page);
            CHECK(n.compare(0, file.size(), file) == 0, "a cache is stored in %s, not %s*", n.c_str(), file.c_str());
            if (locks.contains(n)) CHECK(locks[n] == &m, "cache %s was handed out with two different locks", n.c_str());
            locks[n] = &m;
            if (i < count) {
                CHECK(std::find(order.begin(), order.end(), n) == order.end(), "cache %s was served again after %zu of %llu caches", n.c_str(), order.size(), (u64) count);
                order.push_back(n);
            } else CHECK(order[i % count] == n, "request %llu was served cache %s, %s is next in turn", (u64) i, n.c_str(), order[i % count].c_str());
            bool got = m.try_lock();
            CHECK(got, "the lock of an unused cache is held");
            m.unlock();
        }
        std::set<std::mutex *> distinct;
        for (auto &[k, l]: locks) CHECK(distinct.insert(l).second, "two caches share a lock");
    }
}

void (*pbt::process_init)() = quiet;

static void environment(G &g) {
    pristine();
    std::vector<fakecl::DeviceSpec> ds;
    uint64_t nd = g.weighted({2, 3, 2, 2, 1});
    static const char *stems[] = {"alpha", "beta", "gamma"};
    for (uint64_t i = 0; i < nd; i++) ds.push_back({std::string(stems[g.below(3)]) + " #" + std::to_string(i), 32, 0, g.boolean()});
    bool platform = nd > 0 || g.boolean();
    std::vector<std::vector<fakecl::DeviceSpec>> plats;
    if (platform) plats.push_back(ds);
    fakecl::reset(plats, 1);
    Expect e;
    unsigned rounds = g.chance(25) ? 2 + (unsigned) g.below(2) : 1, present = 0;
    for (unsigned r = 0; r < rounds; r++) {
        bool bad = false, bad_regex = false, refused = false;
        auto number = [&](const char *name, uint64_t &slot, uint64_t lo, uint64_t max) {
            if (!g.boolean()) {
                unsetenv(name);
                return false;
            }
            present++;
            if (g.chance(3)) {
                std::string v = g.pick<const char *>({"", "many", "x1", "99999999999999999999999"});
                setenv(name, v.c_str(), 1);
                g.note("%s='%s' ", name, v.c_str());
                bad = true;
                return true;
            }
            uint64_t v = g.u64(max);
            if (v < lo) v = lo;
            std::string s = spell(g, v);
            setenv(name, s.c_str(), 1);
            g.note("%s='%s' ", name, s.c_str());
            slot = v;
            return true;
        };
        // Cache settings depend on the file being set.
        uint64_t page = 131072, count = 4;
        bool has_page = g.boolean(), has_count = g.boolean(), has_file = g.boolean();
        bool bad_cache = false;
        for (int which = 0; which < 2; which++) {
            const char *name = which ? "HZIP_CACHE_COUNT" : "HZIP_CACHE_PAGE_SIZE";
            if (!(which ? has_count : has_page)) {
                unsetenv(name);
                continue;
            }
            present++;
            if (g.chance(3)) {
                setenv(name, "some", 1);
                bad_cache = true;
                g.note("%s=some ", name);
                continue;
            }
            uint64_t v = which ? g.range(1, 40) : g.u64();
            (which ? count : page) = v;
            std::string s = spell(g, v);
            setenv(name, s.c_str(), 1);
            g.note("%s='%s' ", name, s.c_str());
        }
        if (has_file) {
            e.cache_file = text(g, 30);
            setenv("HZIP_CACHE_FILE", e.cache_file.c_str(), 1);
            g.note("HZIP_CACHE_FILE='%s' ", hex(e.cache_file.data(), e.cache_file.size()).c_str());
            e.cache_page = page;
            e.cache_count = count;
            bad |= bad_cache;
            present++;
        } else {
            unsetenv("HZIP_CACHE_FILE");
            e.cache_file = "hzip";
            e.cache_page = 131072;
            e.cache_count = 4;
        }
        number("HZIP_API_THREADS", e.api_threads, 0, ~0ull);
        number("HZIP_API_PORT", e.api_port, 0, 65535);
        number("HZIP_API_TIMEOUT", e.api_timeout, 0, 0xffffffffu);
        number("HZIP_PROCESSOR_THREADS", e.processor_threads, 0, ~0ull);
        number("HZIP_MAX_MEM_USAGE", e.memory, 0, ~0ull);
        number("HZIP_OPENCL_KERNELS", e.kernels, 0, ~0ull);
        if (g.boolean()) {
            e.key = text(g, 40);
            setenv("HZIP_API_KEY", e.key.c_str(), 1);
            g.note("HZIP_API_KEY=%s ", hex(e.key.data(), e.key.size()).c_str());
            present++;
        } else unsetenv("HZIP_API_KEY");
        std::vector<std::string> left;
        for (auto &d: ds) left.push_back(d.name);
        if (g.chance(40)) {
            std::string pat = g.pick<const char *>({"", "alpha", "beta|gamma", "#0", "nothing", "(", ".*"});
            setenv("HZIP_OPENCL_DEVICE_REGEX", pat.c_str(), 1);
            g.note("HZIP_OPENCL_DEVICE_REGEX='%s' ", pat.c_str());
            present++;
            if (left.empty()) refused = true;
            else if (pat == "(") bad_regex = true;
            else {
                std::regex re(pat);
                std::erase_if(left, [&](const std::string &n) { return !std::regex_search(n, re); });
                e.regex = pat;
                g.label(left.empty() ? "no device left" : "device pattern");
            }
        } else unsetenv("HZIP_OPENCL_DEVICE_REGEX");
        if (present >= 3) g.nontrivial();
        bool thrown = false, as_refusal = false;
        std::string what;
        try { Config::configure(); }
        catch (const OpenCLErrors::InvalidOperationException &x) {
            thrown = as_refusal = true;
            what = x.what();
        } catch (const std::exception &x) {
            thrown = true;
            what = x.what();
        }
        if (bad || bad_regex || refused) {
            CHECK(thrown, "a setting that cannot be used was accepted");
            if (refused && !bad) CHECK(as_refusal, "a device pattern without devices failed with: %s", what.c_str());
            g.label(bad ? "not a number" : refused ? "pattern without devices" : "malformed pattern");
            return;
        }
        CHECK(!thrown, "configuration failed: %s", what.c_str());
        CHECK(Config::api_threads == e.api_threads, "API threads %llu, expected %llu", (u64) Config::api_threads, (u64) e.api_threads);
        CHECK(Config::api_port == e.api_port, "API port %llu, expected %llu", (u64) Config::api_port, (u64) e.api_port);
        CHECK(Config::api_timeout == e.api_timeout, "API timeout %llu, expected %llu", (u64) Config::api_timeout, (u64) e.api_timeout);
        CHECK(Config::api_key == e.key, "API key %s, expected %s", hex(Config::api_key.data(), Config::api_key.size()).c_str(), hex(e.key.data(), e.key.size()).c_str());
        CHECK(Config::processor_threads == e.processor_threads, "processor threads %llu, expected %llu", (u64) Config::processor_threads, (u64) e.processor_threads);
        CHECK(Config::host_max_memory == e.memory, "memory limit %llu, expected %llu", (u64) Config::host_max_memory, (u64) e.memory);
        CHECK(Config::opencl_kernels == e.kernels, "OpenCL kernels %llu, expected %llu", (u64) Config::opencl_kernels, (u64) e.kernels);
        CHECK(Config::opencl_device_regex == e.regex, "device pattern '%s', expected '%s'", Config::opencl_device_regex.c_str(), e.regex.c_str());
        CHECK(Config::opencl_support_enabled == !left.empty(), "OpenCL support is %s with %zu devices", Config::opencl_support_enabled ? "on" : "off", left.size());
        bool cl = get_best_executor() == OPENCL;
        CHECK(cl == !left.empty(), "the best executor is %s with %zu devices", cl ? "OpenCL" : "the CPU", left.size());
        if (!left.empty()) {
            auto devs = hzopencl::DeviceProvider::get_devices();
            CHECK(devs.size() == left.size(), "%zu devices in use, expected %zu", devs.size(), left.size());
            for (size_t i = 0; i < devs.size(); i++) CHECK(fakecl::device_name(devs[i]()) == left[i], "device %s in use, expected %s", fakecl::device_name(devs[i]()).c_str(), left[i].c_str());
        }
        check_caches(e.cache_file, e.cache_count, e.cache_page, e.cache_count + g.below(2 * e.cache_count + 1));
    }
    CHECK(fakecl::complaints().empty(), "OpenCL misuse: %s", fakecl::complaints()[0].c_str());
    pristine();
}

static void caches(G &g) {
    uint64_t inits = g.range(1, 8);
    for (uint64_t i = 0; i < inits; i++) {
        std::string file = "c" + std::to_string(i) + text(g, 10);
        uint64_t count = g.chance(70) ? g.range(1, 6) : g.range(1, 40), page = g.u64();
        CacheProvider::init_cache(file, count, page);
        uint64_t req = g.size(0, 50);
        g.note("init %llu, %llu requests; ", (u64) count, (u64) req);
        if (count >= 2 && req >= 2) g.nontrivial();
        if (g.chance(10)) {
            unsigned nt = 2 + (unsigned) g.below(3);
            g.label("threads");
            std::vector<std::vector<std::pair<std::string, std::mutex *>>> got(nt);
            std::vector<std::thread> t;
            for (unsigned x = 0; x < nt; x++)
                t.emplace_back([&, x] {
                    for (uint64_t k = 0; k < req; k++) {
                        auto [c, m] = CacheProvider::get_cache();
                        got[x].push_back({c.standin_filename, &m});
                        std::lock_guard<std::mutex> l(m);
                    }
                });
            for (auto &x: t) x.join();
            std::map<std::string, uint64_t> n;
            std::map<std::string, std::mutex *> lock;
            for (auto &v: got)
                for (auto &[f, m]: v) {
                    n[f]++;
                    if (lock.contains(f)) CHECK(lock[f] == m, "a cache was handed out with two locks");
                    lock[f] = m;
                }
            uint64_t total = req * nt, lo = ~0ull, hi = 0;
            for (auto &[f, k]: n) {
                lo = std::min(lo, k);
                hi = std::max(hi, k);
            }
            if (total >= count) CHECK(n.size() == count, "%zu of %llu caches were used by %llu requests", n.size(), (u64) count, (u64) total);
            if (total > 0) CHECK(hi - (n.size() == count ? lo : 0) <= 1, "%llu requests were spread as %llu to %llu over %llu caches", (u64) total, (u64) lo, (u64) hi, (u64) count);
        } else check_caches(file, count, page, req);
        std::set<std::string> names;
        for (uint64_t k = 0; k < count; k++) names.insert(CacheProvider::get_cache().first.standin_filename);
        CHECK(names.size() == count, "%llu requests in a row were served %zu different caches", (u64) count, names.size());
    }
}

std::vector<Prop> pbt::properties() {
    return {{"environment", environment, 15000, 500000},
            {"caches", caches, 6000, 200000, REALTIME}};
}
